"""Normal forms: hash-consed terms, commutative polynomials over atoms (matrix products kept
non-commutative), boolean formulas as reduced ordered decision diagrams over canonical atoms.
Equality of two terms is identity.  No solver: everything is rewriting to a canonical form."""
from fractions import Fraction
import hashlib

_tab = {}


class Term:
    __slots__ = ("op", "args", "dig", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.dig < o.dig


def _pd(x):
    if isinstance(x, Term):
        return x.dig
    if isinstance(x, tuple):
        return b"(" + b",".join(_pd(y) for y in x) + b")"
    return repr(x).encode()


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        h = hashlib.md5(op.encode())
        for a in args:
            h.update(_pd(a))
            h.update(b";")
        t.dig = h.digest()
        _tab[k] = t
    return t


# ------------------------------------------------------------------ constructors
def num(v):
    if isinstance(v, float):
        v = Fraction(repr(v))
    return mk("n", Fraction(v))


ZERO, ONE = num(0), num(1)
MAT = set()      # atoms known to be matrix/vector valued


def is_num(t):
    return t.op == "n"


def is_mat(t):
    if t in MAT or t.op in ("mm", "T", "cross", "vec", "cw", "diag", "ones", "eye", "matinv", "sl", "arr"):
        return True
    if t.op == "+":
        return any(any(is_mat(a) for a, _ in m) for m, _ in t.args[0])
    if t.op == "i":
        return any(a.op == "sl" for a in t.args[1])
    if t.op == "ite":
        return is_mat(t.args[1]) or is_mat(t.args[2])
    return False


def _terms(t):
    """dict mono->coef"""
    if t.op == "n":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "+":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _build(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("n", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.dig, e) for a, e in mc[0])))
    return mk("+", items)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _terms(t).items():
            d[m] = d.get(m, 0) + c
    return _build(d)


def scale(t, c):
    c = Fraction(c)
    return _build({m: k * c for m, k in _terms(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: (ae[0].dig, ae[1])))


MAXTERMS = 400


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        tt = _terms(t)
        if len(r) * len(tt) > MAXTERMS:
            a = _build(r)
            r = {((mk("prod", tuple(sorted((a, t)))), 1),): Fraction(1)}
            continue
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in tt.items():
                m = _mulmono(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        r = n
    out = _build(r)
    # ite distribution: c*ite(g,a,b)
    return out


def inv(t):
    if t.op == "n":
        if t.args[0] == 0:
            return mk("inv", t)
        return mk("n", 1 / t.args[0])
    tt = _terms(t)
    if len(tt) == 1:
        (m, c), = tt.items()
        return _build({tuple((a, -e) for a, e in m): 1 / c})
    # normalise leading coefficient
    lead = t.args[0][0][1]
    p = scale(t, 1 / lead)
    return _build({((p_atom(p), -1),): 1 / lead})


def p_atom(p):
    """a polynomial used as an atom (denominator)"""
    return mk("P", p)


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    """n: Term"""
    if is_num(n):
        v = n.args[0]
        if v.denominator == 1:
            k = int(v)
            if k == 0:
                return ONE
            if k < 0:
                return inv(power(a, num(-k)))
            tt = _terms(a)
            if len(tt) == 1:
                (m, c), = tt.items()
                return _build({tuple((x, e * k) for x, e in m): c ** k})
            if k <= 3:
                r = a
                for _ in range(k - 1):
                    r = mul(r, a)
                return r
            return _build({((p_atom(a), k),): Fraction(1)})
        if v == Fraction(1, 2):
            return fun("sqrt", a)
    if is_num(a) and a.args[0] == 1:
        return ONE
    return mk("pow", a, n)


# ---------------------------------------------------------------- matrix algebra
def _split(t):
    """poly -> list of (scalar Term, matrix Term or None)"""
    out = []
    for m, c in _terms(t).items():
        sc = {(): c}
        mats = []
        s = []
        for a, e in m:
            if is_mat(a):
                mats.extend([a] * max(1, abs(e)) if e > 0 else [mk("matinv", a)])
            else:
                s.append((a, e))
        out.append((_build({tuple(s): c}), mats))
    return out


def mm(a, b):
    """matrix product, distributing over sums and pulling scalars out"""
    if a is ZERO or b is ZERO:
        return ZERO
    if is_num(a) or is_num(b):
        return mul(a, b)
    res = []
    for sa, ma in _split(a):
        for sb, mb in _split(b):
            if not ma and not mb:
                # neither side known to be a matrix: keep as ordered product
                res.append(mk("mm", (a, b)) if len(_terms(a)) > 1 or len(_terms(b)) > 1 else mul(sa, sb))
                continue
            if not ma or not mb:
                res.append(mul(sa, sb, *(ma or mb)))
                continue
            fs = []
            for x in ma + mb:
                if x.op == "mm":
                    fs.extend(x.args[0])
                elif x.op == "eye":
                    continue
                else:
                    fs.append(x)
            core = mk("mm", tuple(fs)) if len(fs) > 1 else (fs[0] if fs else mk("eye"))
            res.append(mul(sa, sb, core))
    return add(*res) if res else ZERO


def transpose(t):
    if is_num(t):
        return t
    if t.op == "+":
        r = []
        for s, ms in _split(t):
            r.append(mul(s, *[transpose(m) for m in ms]))
        return add(*r)
    if t.op == "T":
        return t.args[0]
    if t.op == "mm":
        r = [transpose(x) for x in reversed(t.args[0])]
        out = r[0]
        for x in r[1:]:
            out = mm(out, x)
        return out
    if t.op in ("diag", "eye"):
        return t
    if t.op == "matinv":
        return mk("matinv", transpose(t.args[0]))
    return mk("T", t)


HOOKS = {}


def bilinear(op, a, b, sym=0):
    """op(a,b) bilinear; sym=1 symmetric, -1 antisymmetric"""
    if a is ZERO or b is ZERO:
        return ZERO
    res = []
    for sa, ma in _split(a):
        for sb, mb in _split(b):
            x = mul(*ma) if ma else ONE
            y = mul(*mb) if mb else ONE
            if not ma:
                x, sa = sa, ONE
            if not mb:
                y, sb = sb, ONE
            sg = ONE
            if sym == 1 and y.dig < x.dig:
                x, y = y, x
            if sym == -1:
                if x is y:
                    continue
                if y.dig < x.dig:
                    x, y = y, x
                    sg = num(-1)
            h = HOOKS[op](x, y) if op in HOOKS else None
            res.append(mul(sa, sb, sg, h if h is not None else mk(op, x, y)))
    return add(*res) if res else ZERO


FUN_NUM = {}


def fun(name, *args):
    """pure named function of scalars with a few canonical rewrites"""
    if name == "sqrt" and is_num(args[0]):
        v = args[0].args[0]
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return num(Fraction(n, d))
    if name in ("abs",) and is_num(args[0]):
        return num(abs(args[0].args[0]))
    if name == "abs":
        t = _terms(args[0])
        if t and t[next(iter(sorted(t, key=lambda m: tuple((a.dig, e) for a, e in m))))] < 0:
            return fun("abs", neg(args[0]))
    if name in ("min", "max") and len(args) >= 2:
        flat = []
        for a in args:
            flat.extend(a.args[1] if a.op == "fun" and a.args[0] == name and isinstance(a.args[1], tuple) else [a])
        nums = [a for a in flat if is_num(a)]
        rest = sorted(set(a for a in flat if not is_num(a)))
        if nums:
            v = (min if name == "min" else max)(a.args[0] for a in nums)
            rest = rest + [num(v)]
        if len(rest) == 1:
            return rest[0]
        return mk("fun", name, tuple(rest))
    if name in ("sin", "tan", "sinh", "tanh") or name in ("cos", "cosh"):
        t = _terms(args[0])
        if t:
            m0 = sorted(t, key=lambda m: tuple((a.dig, e) for a, e in m))[0]
            if t[m0] < 0:
                r = fun(name, neg(args[0]))
                return r if name.startswith("cos") else neg(r)
    return mk("fun", name, tuple(args))


# ---------------------------------------------------------------- booleans (ROBDD)
_bn = [None, None]            # node -> (var, lo, hi);  0 = False, 1 = True
_bu = {}
_vars = []                     # var index -> atom Term
_varix = {}
_ap = {}
F, T = 0, 1


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _bu.get(k)
    if n is None:
        n = len(_bn)
        _bn.append(k)
        _bu[k] = n
    return n


def bvar(atom):
    i = _varix.get(atom)
    if i is None:
        i = len(_vars)
        _vars.append(atom)
        _varix[atom] = i
    return _node(i, F, T)


def bite(f, g, h):
    if f == T:
        return g
    if f == F:
        return h
    if g == h:
        return g
    if g == T and h == F:
        return f
    k = (f, g, h)
    r = _ap.get(k)
    if r is not None:
        return r
    v = min(_bn[x][0] for x in (f, g, h) if x > 1)

    def co(x, b):
        if x > 1 and _bn[x][0] == v:
            return _bn[x][2] if b else _bn[x][1]
        return x
    r = _node(v, bite(co(f, 0), co(g, 0), co(h, 0)), bite(co(f, 1), co(g, 1), co(h, 1)))
    _ap[k] = r
    return r


def band(*fs):
    r = T
    for f in fs:
        r = bite(r, f, F)
    return r


def bor(*fs):
    r = F
    for f in fs:
        r = bite(r, T, f)
    return r


def bnot(f):
    return bite(f, F, T)


def bsupport(f):
    seen, out, st = set(), set(), [f]
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        v, lo, hi = _bn[x]
        out.add(v)
        st += [lo, hi]
    return [_vars[v] for v in sorted(out)]


def brestrict(f, atom, val):
    v = _varix.get(atom)
    if v is None:
        return f
    memo = {}

    def go(x):
        if x <= 1 or _bn[x][0] > v:
            return x
        if x in memo:
            return memo[x]
        w, lo, hi = _bn[x]
        r = (hi if val else lo) if w == v else _node(w, go(lo), go(hi))
        memo[x] = r
        return r
    return go(f)


def bcanon(f):
    """quotient by 'x equals at most one of several distinct constants'"""
    groups = {}
    for a in bsupport(f):
        if a.op == "eqc":
            groups.setdefault(a.args[0], []).append(a)
    for x, ats in groups.items():
        if len(ats) < 2:
            continue
        ats.sort()
        allf = f
        for a in ats:
            allf = brestrict(allf, a, False)
        r = allf
        for a in reversed(ats):
            g = f
            for b in ats:
                g = brestrict(g, b, b is a)
            if g != allf:
                r = bite(bvar(a), g, r)
        f = r
    return f


def beq(f, g):
    if f == g:
        return True
    return bcanon(bite(f, bnot(g), g)) == F


def bsat_implies(f, g):
    """f => g modulo the constant-exclusivity theory"""
    return bcanon(band(f, bnot(g))) == F


def bmap(f, fn):
    """rebuild formula with every atom mapped to a formula"""
    memo = {}

    def go(x):
        if x <= 1:
            return x
        if x in memo:
            return memo[x]
        v, lo, hi = _bn[x]
        r = bite(fn(_vars[v]), go(hi), go(lo))
        memo[x] = r
        return r
    return go(f)


def bdig(f):
    """process-independent digest of a formula"""
    if f <= 1:
        return b"TF"[1 - f:2 - f] if False else (b"T" if f else b"F")
    v, lo, hi = _bn[f]
    return hashlib.md5(_vars[v].dig + bdig(lo) + bdig(hi)).digest()


# comparison atoms -----------------------------------------------------------------
def _lead(p):
    if p.op == "n":
        return Fraction(0)
    if p.op != "+":
        return Fraction(1)
    for m, c in p.args[0]:
        if m != ():
            return c
    return Fraction(0)


def is_int(t):
    if t.op == "n":
        return t.args[0].denominator == 1
    if t.op == "+":
        return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for m, c in t.args[0])
    if t.op == "i" and t.args[0].op == "f" and t.args[0].args[1] in ("$outerIndexPtr", "$innerIndexPtr"):
        return True
    return t in INT or t.op in ("L", "B", "len", "floor", "ceildiv")


INT = set()


def _lift(p, rec):
    """conditional addends of a comparison become cases of the comparison"""
    if p.op == "ite":
        return bite(p.args[0], rec(p.args[1]), rec(p.args[2]))
    if p.op == "+":
        cs = [(m, c) for m, c in p.args[0] if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite"]
        if cs and len(cs) <= 4:
            m, c = cs[0]
            t = m[0][0]
            rest = sub(p, scale(t, c))
            return bite(t.args[0], rec(add(rest, scale(t.args[1], c))), rec(add(rest, scale(t.args[2], c))))
    return None


NATURAL = ("len", "L", "B")      # lengths and iteration counts are never negative


def lt(a, b):
    p = sub(a, b)
    if is_num(p):
        return T if p.args[0] < 0 else F
    r = _lift(p, lambda x: lt(x, ZERO))
    if r is not None:
        return r
    l = _lead(p)
    isint = is_int(p)
    if isint and p.op == "+" and len(p.args[0]) == 2:
        # a length is never negative
        for (m1, c1), (m2, c2) in (p.args[0], p.args[0][::-1]):
            if m1 == () and len(m2) == 1 and m2[0][1] == 1 and m2[0][0].op in NATURAL and abs(c2) == 1:
                if (c1, c2) == (-1, 1):
                    return eq(m2[0][0], ZERO)
                if (c1, c2) == (0, -1):
                    return bnot(eq(m2[0][0], ZERO))
    if isint and p.op == "+" and len(p.args[0]) == 1:
        (m2, c2), = p.args[0]
        if len(m2) == 1 and m2[0][1] == 1 and m2[0][0].op in NATURAL:
            return F if c2 > 0 else bnot(eq(m2[0][0], ZERO))
    if p.op in NATURAL:
        return F
    if isint:
        if l < 0:     # p<0  <=>  not(-p-1 < 0)
            return bnot(bvar(mk("lt0", sub(neg(p), ONE))))
        return bvar(mk("lt0", p))
    p = scale(p, 1 / abs(l))
    if l < 0:
        return bnot(bvar(mk("le0", neg(p))))
    return bvar(mk("lt0", p))


def le(a, b):
    return bnot(lt(b, a))


CONSTOPS = ("enum", "str", "none")


def eq(a, b):
    if a is b:
        return T
    ca, cb = a.op in CONSTOPS, b.op in CONSTOPS
    if ca and cb:
        return F
    if ca:
        a, b, ca, cb = b, a, cb, ca
    if a.op == "ite":
        return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite":
        return bite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if cb:
        return bvar(mk("eqc", a, b))
    if a.op == "b" and b.op == "b":
        return bite(a.args[0], b.args[0], bnot(b.args[0]))
    if is_num(b) and not is_num(a) and a.op != "+":
        return bvar(mk("eqc", a, b))
    if is_num(a) and not is_num(b) and b.op != "+":
        return bvar(mk("eqc", b, a))
    p = sub(a, b)
    if is_num(p):
        return T if p.args[0] == 0 else F
    r = _lift(p, lambda x: eq(x, ZERO))
    if r is not None:
        return r
    l = _lead(p)
    return bvar(mk("eq0", scale(p, 1 / l)))


def truth(t):
    """term -> formula"""
    if t.op == "b":
        return t.args[0]
    if t.op == "n":
        return T if t.args[0] else F
    if t.op == "ite":
        return bite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == "none":
        return F
    if t.op == "str":
        return T if t.args[0] else F
    return bvar(mk("tr", t))


def boolt(f):
    return mk("b", f)


def _minmax(c, a, b):
    """(a < b ? a : b) is min(a, b), and so on"""
    v, lo, hi = _bn[c]
    if {lo, hi} != {F, T}:
        return None
    at = _vars[v]
    if at.op not in ("lt0", "le0") or a.op in ("b", "str", "none", "list") or b.op in ("b", "str", "none", "list"):
        return None
    p, d = at.args[0], None
    if at.op == "lt0" and is_int(p):
        # integers: p < 0 with p = k - 1 is k <= 0
        cands = [(p, False), (add(p, ONE), False), (sub(p, ONE), False)]
    else:
        cands = [(p, False)]
    try:
        ab = sub(a, b)
    except Exception:
        return None
    if is_num(ab):
        return None
    pos = hi == T               # condition is "p below zero"
    for q, _ in cands:
        if is_num(q):
            continue
        k = _ratio(q, ab)
        if k is None:
            continue
        if (k > 0) == pos:
            return fun("min", a, b)
        return fun("max", a, b)
    return None


def _emptysum(c, a, b):
    """a sum over no terms is zero: the case distinction on emptiness is superfluous"""
    v, lo, hi = _bn[c]
    if {lo, hi} != {F, T}:
        return None
    at = _vars[v]
    if at.op != "lt0" or not is_int(at.args[0]):
        return None
    q = at.args[0]
    for empty, full, p, neg_ in ((a, b, q if hi == T else None, False), (b, a, q if hi == F else None, False), (b, a, q if hi == T else None, True), (a, b, q if hi == F else None, True)):
        if p is None or full.op not in ("+", "sum"):
            continue
        sums = [m[0][0] for m, _ in full.args[0] if len(m) == 1 and m[0][0].op == "sum"] if full.op == "+" else [full]
        for x in sums:
            if neg_ and neg(x.args[0]) is p or not neg_ and (sub(x.args[0], ONE) is p or x.args[0] is p):
                if subst(full, lambda y: ZERO if y is x else None) is empty:
                    return full
    return None


def _ratio(p, q):
    """k with p = k q, or None"""
    lp, lq = _lead(p), _lead(q)
    if not lp or not lq:
        return None
    k = lp / lq
    return k if scale(q, k) is p else None


def ite(c, a, b):
    if c == T or a is b:
        return a
    if c == F:
        return b
    if a.op == "b" and b.op == "b":
        return boolt(bite(c, a.args[0], b.args[0]))
    if a.op == "b" and b.op in ("mu", "self", "final") or b.op == "b" and a.op in ("mu", "self", "final"):
        return boolt(bite(c, truth(a), truth(b)))
    # nested same-condition simplification
    if a.op == "ite":
        if bsat_implies(c, a.args[0]):
            a = a.args[1]
        elif bsat_implies(c, bnot(a.args[0])):
            a = a.args[2]
    if b.op == "ite":
        nc = bnot(c)
        if bsat_implies(nc, b.args[0]):
            b = b.args[1]
        elif bsat_implies(nc, bnot(b.args[0])):
            b = b.args[2]
    if a is b:
        return a
    # merge ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(bor(c, bnot(b.args[0])), a, b.args[1])
    if a.op == "ite" and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(band(c, bnot(a.args[0])), a.args[2], b)
    r = _minmax(c, a, b)
    if r is not None:
        return r
    # ite(P, min(a,b), b) -> ite(P && a<b, a, b): the comparison belongs to the condition
    for x, y, fl in ((a, b, False), (b, a, True)):
        if x.op == "fun" and x.args[0] in ("min", "max") and len(x.args[1]) == 2 and y in x.args[1]:
            o = x.args[1][1] if x.args[1][0] is y else x.args[1][0]
            less = lt(o, y) if x.args[0] == "min" else lt(y, o)
            g = band(bnot(c) if fl else c, less)
            if g != less:
                return ite(g, o, y)
            return x
    r = _emptysum(c, a, b)
    if r is not None:
        return r
    # canonical polarity: decide by digest of the branches
    if b.dig < a.dig:
        return mk("ite", bcanon(bnot(c)), b, a)
    return mk("ite", bcanon(c), a, b)


def bconstrain(f, g, memo=None):
    """generalised cofactor: depends only on where f and g hold together"""
    if g == T or f <= 1 or g == F:
        return f
    memo = {} if memo is None else memo
    r = memo.get((f, g))
    if r is not None:
        return r
    v = min(_bn[f][0], _bn[g][0])
    co = lambda x, b: _bn[x][2 if b else 1] if _bn[x][0] == v else x
    g0, g1 = (_bn[g][1], _bn[g][2]) if _bn[g][0] == v else (g, g)
    if g1 == F:
        r = bconstrain(co(f, 0), g0, memo) if co(f, 0) > 1 else co(f, 0)
    elif g0 == F:
        r = bconstrain(co(f, 1), g1, memo) if co(f, 1) > 1 else co(f, 1)
    else:
        r = _node(v, bconstrain(co(f, 0), g0, memo), bconstrain(co(f, 1), g1, memo))
    memo[(f, g)] = r
    return r


def leaves(t, care=T, limit=16):
    """cases of a conditional value: {value: when}, those impossible under care dropped; None if there are too many"""
    out = {}

    def go(x, c):
        if c == F or bcanon(c) == F:
            return True
        if x.op == "ite":
            return go(x.args[1], band(c, x.args[0])) and go(x.args[2], band(c, bnot(x.args[0])))
        out[x] = bor(out.get(x, F), c)
        return len(out) <= limit
    return out if go(t, care) else None


def cases(d, care=T):
    """canonical conditional value of a case table"""
    ls = sorted(d, key=lambda x: x.dig)
    if not ls:
        return None
    conds = []
    for x in ls[:-1]:
        conds.append(bcanon(bconstrain(bcanon(d[x]), bcanon(care))))
        care = band(care, bnot(d[x]))
    r = ls[-1]
    for x, c in zip(reversed(ls[:-1]), reversed(conds)):
        r = x if c == T else r if c == F else mk("ite", c, x, r)
    return r


def canon_cases(t, memo=None):
    """every conditional value inside t in the canonical form of its case table"""
    memo = {} if memo is None else memo

    def m(x):
        if x.op == "+" and any(a.op == "ite" for mo, _ in x.args[0] for a, e in mo):
            # a sum or product with conditional parts is conditional itself
            todo, out = [(x, T)], {}
            while todo:
                t, c = todo.pop()
                if bcanon(c) == F:
                    continue
                its = sorted({a for mo, _ in t.args[0] for a, e in mo if a.op == "ite"}) if t.op == "+" else ([t] if t.op == "ite" else [])
                if not its:
                    out[t] = bor(out.get(t, F), c)
                    if len(out) > 8:
                        break
                    continue
                i = its[0]
                for f, v in ((i.args[0], i.args[1]), (bnot(i.args[0]), i.args[2])):
                    todo.append((v if t is i else subst(t, lambda y: v if y is i else None), band(c, f)))
            else:
                if len(out) == 1:
                    return subst(list(out)[0], m, memo)
                x = cases(out)
                return subst(x, m, memo)
            return None
        if x.op != "ite":
            return None
        d = leaves(x)
        if d is None:
            return None
        e = {}
        for v, c in d.items():
            v2 = subst(v, m, memo)
            if v2.op == "ite":
                return None
            e[v2] = bor(e.get(v2, F), fsubst(c, m, memo))
        return cases(e)
    return subst(t, m, memo)


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == "+":
        for m, c in t.args[0]:
            for a, e in m:
                yield a
        return
    if t.op == "ite":
        for a in bsupport(t.args[0]):
            yield a
        yield t.args[1]
        yield t.args[2]
        return
    if t.op == "b":
        for a in bsupport(t.args[0]):
            yield a
        return

    def rec(x):
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                yield from rec(y)
    for a in t.args:
        yield from rec(a)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def fcontains(f, pred):
    return any(contains(a, pred) for a in bsupport(f))


REBUILD = {}


def subst(t, m, memo=None):
    """m: callable Term->Term|None (None: descend)"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = m(t)
    if r is None:
        r = _rebuild(t, lambda x: subst(x, m, memo), lambda f: fsubst(f, m, memo))
    memo[t] = r
    return r


def fsubst(f, m, memo=None):
    memo = {} if memo is None else memo

    def at(a):
        r = m(a)
        if r is not None:
            return truth(r)
        if a.op in ("lt0", "le0", "eq0"):
            p = subst(a.args[0], m, memo)
            if p is a.args[0]:
                return bvar(a)
            if a.op == "lt0":
                return lt(p, ZERO)
            if a.op == "le0":
                return le(p, ZERO)
            return eq(p, ZERO)
        if a.op == "eqc":
            return eq(subst(a.args[0], m, memo), subst(a.args[1], m, memo))
        if a.op == "tr":
            return truth(subst(a.args[0], m, memo))
        x = subst(a, m, memo)
        return x.args[0] if x.op == "b" else bvar(x)
    return bmap(f, at)


def _rebuild(t, g, gf):
    if t.op in ("n", "str", "enum", "none", "L", "B", "this", "sym"):
        return t
    if t.op == "+":
        r = []
        for mo, c in t.args[0]:
            fs = [num(c)]
            for a, e in mo:
                fs.append(power(g(a), num(e)))
            r.append(mul(*fs))
        return add(*r)
    if t.op == "ite":
        return ite(gf(t.args[0]), g(t.args[1]), g(t.args[2]))
    if t.op == "b":
        return boolt(gf(t.args[0]))
    if t.op == "P":
        return p_atom(g(t.args[0])) if g(t.args[0]).op == "+" else g(t.args[0])

    def rec(x):
        if isinstance(x, Term):
            return g(x)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    args = tuple(rec(a) for a in t.args)
    if args == t.args:
        return t
    if t.op == "mm":
        out = args[0][0]
        for x in args[0][1:]:
            out = mm(out, x)
        return out
    if t.op == "T":
        return transpose(args[0])
    if t.op == "fun":
        return fun(args[0], *args[1])
    if t.op == "dot":
        return bilinear("dot", args[0], args[1], 1)
    if t.op == "cross":
        return bilinear("cross", args[0], args[1], -1)
    if t.op in REBUILD:
        return REBUILD[t.op](*args)
    r = mk(t.op, *args)
    if t in MAT:
        MAT.add(r)
    if t in INT:
        INT.add(r)
    return r


# ---------------------------------------------------------------- printing
def fshow(f, top=True):
    if f == T:
        return "true"
    if f == F:
        return "false"
    # conjunction of literals?
    lits = []
    x = f
    while x > 1:
        v, lo, hi = _bn[x]
        if lo == F:
            lits.append(show_atom(_vars[v], True))
            x = hi
        elif hi == F:
            lits.append(show_atom(_vars[v], False))
            x = lo
        else:
            break
    if x == T:
        return " && ".join(lits)
    if x > 1:
        v, lo, hi = _bn[x]
        lits.append("(" + show_atom(_vars[v], True) + " ? " + fshow(hi) + " : " + fshow(lo) + ")")
    return " && ".join(lits)


def show_atom(a, pos):
    if a.op in ("lt0", "le0", "eq0"):
        p = a.args[0]
        o = {"lt0": ("<", ">="), "le0": ("<=", ">"), "eq0": ("==", "!=")}[a.op][0 if pos else 1]
        return f"{show(p)} {o} 0"
    if a.op == "eqc":
        return f"{show(a.args[0])} {'==' if pos else '!='} {show(a.args[1])}"
    if a.op == "tr":
        return ("" if pos else "!") + show(a.args[0])
    return ("" if pos else "!") + show(a)


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return ",".join(show(x, d + 1) for x in t)
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.args
    if o == "n":
        v = a[0]
        return str(v) if v.denominator == 1 or v.denominator > 1000 and False else (str(v) if v.denominator < 1000 else "%.6g" % float(v))
    if o == "+":
        out = []
        for m, c in a[0]:
            s = "*".join((show(x, d + 1) + (f"^{e}" if e != 1 else "")) for x, e in m)
            if m == ():
                s = show(num(c), d + 1)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = show(num(c)) + "*" + s
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if o == "f":
        return show(a[0], d + 1) + "." + a[1] if a[0].op != "this" else a[1]
    if o == "i":
        return show(a[0], d + 1) + "[" + ",".join(show(x, d + 1) for x in a[1]) + "]"
    if o == "sl":
        return show(a[0], d + 1) + ":+" + show(a[1], d + 1)
    if o == "c":
        r = a[1]
        return (show(r, d + 1) + "." if isinstance(r, Term) else "") + a[0].split("::")[-1] + "(" + ",".join(show(x, d + 1) for x in a[2]) + ")"
    if o == "ite":
        return "(" + fshow(a[0]) + " ? " + show(a[1], d + 1) + " : " + show(a[2], d + 1) + ")"
    if o == "b":
        return "{" + fshow(a[0]) + "}"
    if o == "L":
        return "ijklmnop"[a[0]] if a[0] < 8 else "L%d" % a[0]
    if o == "sym":
        return a[0]
    if o == "str":
        return '"%s"' % a[0]
    if o == "enum":
        return a[0].split("::")[-1]
    if o == "this":
        return "this"
    if o == "fun":
        return a[0] + "(" + ",".join(show(x, d + 1) for x in a[1]) + ")"
    if o == "mm":
        return "[" + " @ ".join(show(x, d + 1) for x in a[0]) + "]"
    if o == "T":
        return show(a[0], d + 1) + "'"
    return o + "(" + ",".join(show(x, d + 1) for x in a) + ")"
