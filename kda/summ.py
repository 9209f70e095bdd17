"""Guarded-effect summaries: a forward dataflow pass over the resolved tree that replaces locals
by their reaching definitions, inlines functions of the repository (bounded), normalises loops
and guards, and returns the observable effects of a function as a set of
(loop nest, guard, target location, value) in normal form."""
import re, sys
from .nf import *
from . import nf

sys.setrecursionlimit(20000)
ALL = mk("all")
THIS = mk("this")
SLALL = mk("sl", ZERO, ALL)


class Giveup(Exception):
    pass


class Effect:
    __slots__ = ("kind", "target", "value", "guard", "loops", "line", "file", "fn", "extra")

    def __init__(s, kind, target, value, guard, loops, line, file, fn, extra=None):
        s.kind, s.target, s.value, s.guard, s.loops = kind, target, value, guard, loops
        s.line, s.file, s.fn, s.extra = line, file, fn, extra

    def where(s):
        return f"{s.file}:{s.line} ({s.fn})"

    def __repr__(s):
        lp = " ".join(f"for {'ijklmnop'[k]}<{show(d)}" for k, d in enumerate(s.loops))
        g = "" if s.guard == T else f" if {fshow(bcanon(s.guard))}"
        if s.kind == "set":
            return f"{lp}{g}: {show(s.target)} = {show(s.value)}"
        if s.kind in ("ret", "throw"):
            return f"{lp}{g}: {s.kind} {show(s.value) if s.value is not None else ''}"
        return f"{lp}{g}: {s.kind} {show(s.target) if s.target is not None else ''} {show(s.value) if s.value is not None else ''}"


def reflike(ty):
    return bool(re.match(r"(const )?Eigen::(Ref|Block|VectorBlock|Map|Transpose|ArrayWrapper|MatrixWrapper|Diagonal)<", ty or ""))


def strip_t(q):
    """strip template arguments from a qualified name"""
    q = q.replace("operator<<", "operator@L").replace("operator>>", "operator@R").replace("operator->", "operator@A")
    q = q.replace("operator<=", "operator@le").replace("operator>=", "operator@ge").replace("operator<", "operator@lt").replace("operator>", "operator@gt")
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    q = "".join(out)
    for a, b in (("@L", "<<"), ("@R", ">>"), ("@A", "->"), ("@le", "<="), ("@ge", ">="), ("@lt", "<"), ("@gt", ">")):
        q = q.replace("operator" + a, "operator" + b)
    return q


# ------------------------------------------------------------------ locations
def root(loc):
    while loc.op in ("f", "i"):
        loc = loc.args[0]
    return loc


def is_local(loc):
    return root(loc).op == "l"


def distinct(a, b):
    """two index components certainly different"""
    if a is b:
        return False
    if a.op == "sl" or b.op == "sl":
        sa, na = (a.args if a.op == "sl" else (a, ONE))
        sb, nb = (b.args if b.op == "sl" else (b, ONE))
        d = sub(sb, sa)
        if is_num(d):
            if d.args[0] > 0 and na is not ALL and is_num(na) and d.args[0] >= na.args[0]:
                return True
            if d.args[0] < 0 and nb is not ALL and is_num(nb) and -d.args[0] >= nb.args[0]:
                return True
        # start_b >= start_a + len_a symbolically
        for gap in ([sub(d, na)] if na is not ALL else []) + ([neg(add(d, nb))] if nb is not ALL else []):
            if gap is ZERO or positive(gap) or is_num(gap) and gap.args[0] >= 0:
                return True
        return False
    if a.op in CONSTOPS and b.op in CONSTOPS:
        return True
    d = sub(a, b)
    if is_num(d):
        return d.args[0] != 0
    return positive(d) or positive(neg(d))


def positive(d):
    """certainly > 0: positive constant plus nonnegative counters"""
    if d.op != "+":
        return False
    const = False
    for m, c in d.args[0]:
        if c < 0:
            return False
        if not m:
            const = True
        elif not all(x.op in ("L", "len") for x, e in m):
            return False
    return const


SCAL = set()
CURDOM = []       # domains of the loops being walked


def arr_make(dom, body, d):
    """the vector whose k-th element is body at loop index k"""
    L = mk("L", d)
    if not contains(body, lambda x: x is L):
        return mk("arr", dom, body, mk("none"))
    B = mk("B", _height(body))
    return mk("arr", dom, subst(body, lambda x: B if x is L else None), B)


def arr_at(a, k):
    dom, body, B = a.args
    if B.op == "none":
        return body
    if contains(k, lambda x: x.op == "B"):
        return None
    return subst(body, lambda x: k if x is B else None)


def arr_index(a, idx):
    if len(idx) != 1:
        return None
    if idx[0].op != "sl":
        return arr_at(a, idx[0])
    s, n = idx[0].args
    if n is ALL:
        n = sub(a.args[0], s)
    b = arr_at(a, add(s, mk("L", 97)))
    return arr_make(n, b, 97) if b is not None else None


def within(big, small):
    """index of `small` inside the one slice of `big` that differs, when certainly inside"""
    k = None
    for x, y in zip(big, small):
        if x is y and x.op != "sl":
            continue
        if x.op != "sl" or k is not None:
            return None
        s, n = x.args
        if y.op == "sl":
            if not Summ.covers(x, y):
                return None
            k = mk("sl", sub(y.args[0], s), y.args[1] if y.args[1] is not ALL else sub(n, sub(y.args[0], s)))
            continue
        o = sub(y, s)
        if is_num(o):
            if o.args[0] < 0 or not is_num(n) or o.args[0] >= n.args[0]:
                return None
            k = o
            continue
        t = nf._terms(o)
        ls = [m[0][0] for m in t if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "L"]
        c = t.get((), 0)
        if len(ls) != 1 or c < 0 or len(t) != (2 if () in t else 1) or t[((ls[0], 1),)] != 1 or ls[0].args[0] >= len(CURDOM):
            return None
        dom = CURDOM[ls[0].args[0]]
        if dom.op in ("while", "dowhile", "post", "dry"):
            return None
        r = sub(sub(n, dom), num(c))
        if not (is_num(r) and r.args[0] >= 0):
            return None
        k = o
    return k


def scalar(a):
    """certainly not a matrix"""
    if a in SCAL or a.op in ("n", "fun", "dot", "L", "len", "sum", "P"):
        return True
    return a.op == "i" and a.args[0] in MAT and all(x.op != "sl" for x in a.args[1])


def index(base, idx):
    """normalised element/slice access"""
    idx = tuple(idx)
    if base is ZERO:
        return ZERO
    if all(x is SLALL for x in idx):
        return base
    if base.op == "zeros" and len(idx) == 1 and idx[0].op not in ("sl", "slstep"):
        return mk("zeros", base.args[0][1:]) if len(base.args[0]) > 1 else ZERO
    if base.op == "zeros" and len(idx) == 1 and idx[0].op == "sl" and len(base.args[0]) == 1:
        n = idx[0].args[1]
        return mk("zeros", (sub(base.args[0][0], idx[0].args[0]) if n is ALL else n,))
    if base.op == "addr":
        base = base.args[0]
        if base.op == "i" and len(base.args[1]) == 1 and len(idx) == 1 and base.args[1][0].op != "sl" and idx[0].op != "sl":
            return index(base.args[0], (add(base.args[1][0], idx[0]),))
        if idx == (ZERO,):
            return base
    if base.op in ("vec", "list") and len(idx) == 2 and idx[0].op == "sl" and is_num(idx[0].args[0]) and base.args[0] and all(x.op in ("vec", "list", "zeros") for x in base.args[0]):
        rows = index(base, (idx[0],))
        if rows.op in ("vec", "list"):
            return mk("vec", tuple(index(x, (idx[1],)) for x in rows.args[0]))
    if base.op == "vec" and len(idx) == 1 and is_num(idx[0]):
        k = int(idx[0].args[0])
        v = base.args[0]
        if -len(v) <= k < len(v):
            return v[k]
    if base.op in ("vec", "list") and len(idx) == 1 and idx[0].op == "sl" and is_num(idx[0].args[0]):
        s, n = idx[0].args
        v = base.args[0]
        s = int(s.args[0])
        e = len(v) if n is ALL else (s + int(n.args[0]) if is_num(n) else None)
        if e is not None and 0 <= s and e <= len(v):
            return mk(base.op, v[s:e])
    if base.op == "list" and len(idx) == 1 and is_num(idx[0]):
        k = int(idx[0].args[0])
        v = base.args[0]
        if -len(v) <= k < len(v):
            return v[k]
    if base.op == "ite":
        return ite(base.args[0], index(base.args[1], idx), index(base.args[2], idx))
    if base.op == "+":
        parts = []
        ok = True
        for m, c in base.args[0]:
            mats = [(a, e) for a, e in m if is_mat(a)]
            if not mats and all(scalar(a) for a, e in m):
                parts.append(mul(num(c), *[power(a, num(e)) for a, e in m]))       # broadcast
                continue
            if len(mats) != 1 or mats[0][1] != 1:
                ok = False
                break
            rest = [power(a, num(e)) for a, e in m if not is_mat(a)]
            parts.append(mul(num(c), *rest, index(mats[0][0], idx)))
        if ok and parts:
            return add(*parts)
    if base.op == "cw" and len(idx) == 1:
        if idx[0].op == "sl":
            return bilinear("cw", index(base.args[0], idx), index(base.args[1], idx), 1)
        return mul(index(base.args[0], idx), index(base.args[1], idx))
    if base.op == "ef" and base.args[0] in ELEM and len(idx) == 1 and idx[0].op != "sl":
        return fun(ELEM[base.args[0]], index(base.args[1], idx))
    if base.op == "ef" and base.args[0] in ("array",) and not base.args[2]:
        return index(base.args[1], idx)
    if base.op == "ef" and base.args[0] in ("square", "cwiseAbs2") and len(idx) == 1 and idx[0].op != "sl":
        return power(index(base.args[1], idx), num(2))
    if base.op == "ones" and idx[0].op != "sl":
        return ONE
    if base.op == "arr":
        r = arr_index(base, idx)
        if r is not None:
            return r
    if base.op == "upd":
        b0, ups = base.args
        for i2, v in reversed(ups):
            if i2 == idx:
                return v
            if v.op == "arr" and len(i2) == len(idx):
                k = within(i2, idx)
                if k is not None:
                    r = index(v, (k,))
                    if r.op != "i" or r.args[0] is not v:
                        return r
            if len(i2) != len(idx) or not any(distinct(x, y) for x, y in zip(i2, idx)):
                return mk("i", base, idx)
        return index(b0, idx)
    if base.op == "i":
        b, j = base.args
        sls = [k for k, x in enumerate(j) if x.op == "sl"]
        if sls and len(sls) == len(idx):
            nj = list(j)
            ok = True
            for k, x in zip(sls, idx):
                s, n = j[k].args
                if x.op == "sl":
                    nj[k] = mk("sl", add(s, x.args[0]), n if (x.args[1] is ALL and x.args[0] is ZERO) else (x.args[1] if x.args[1] is not ALL else (ALL if n is ALL else sub(n, x.args[0]))))
                else:
                    nj[k] = add(s, x)
            if ok:
                return index(b, tuple(nj))
    r = mk("i", base, idx)
    if any(x.op == "sl" for x in idx):
        MAT.add(r)
    return r


def mkmu(k, defs, d):
    """the k-th of several mutually dependent loop variables, (initial value, value after an iteration) each; listed in an order that does not depend on names"""
    rank = [0] * len(defs)
    while len(defs) > 1:
        col = lambda x: mk("col", rank[x.args[0]]) if x.op == "self" and x.args[1] == d else None
        keys = [(rank[i], a.dig, subst(b, col).dig) for i, (a, b) in enumerate(defs)]
        o = sorted(set(keys))
        new = [o.index(x) for x in keys]
        if new == rank:
            break
        rank = new
    order = sorted(range(len(defs)), key=lambda i: rank[i])
    if order == list(range(len(defs))):
        return mk("mu", k, defs, d)
    pos = {i: n for n, i in enumerate(order)}
    ren = lambda x: mk("self", pos[x.args[0]], d) if x.op == "self" and x.args[1] == d else None
    return mk("mu", pos[k], tuple((defs[i][0], subst(defs[i][1], ren)) for i in order), d)


nf.REBUILD["mu"] = mkmu
nf.REBUILD["i"] = lambda b, idx: index(b, idx)
nf.REBUILD["f"] = lambda b, n: fieldof(b, n)


def undef_of(z, n=60):
    """the uninitialised vector from which z was made by changes of elements"""
    while z is not None and n > 0:
        n -= 1
        if z.op == "undef":
            return z if len(z.args) == 1 else None
        if z in SAMELEN:
            z = SAMELEN[z]
        elif z.op == "upd":
            z = z.args[0]
        elif z.op == "looped" and len(z.args) == 3:
            z = z.args[2]
        elif z.op == "cvd":
            k, defs = z.args[:2]
            z = defs[k][0] if isinstance(k, int) and isinstance(defs, tuple) and k < len(defs) else None
        elif z.op == "ite":
            return undef_of(z.args[1], n // 2) or undef_of(z.args[2], n // 2)
        else:
            return None
    return None


def _upd(b, ups):
    if b.op != "undef" and all(len(i) == 1 and is_num(i[0]) for i, v in ups):
        # every element of a vector of fixed size is replaced: what it held before does not matter
        z = undef_of(b)
        m = FIXEDVEC.match(str(z.args[0])) if z is not None else None
        if m and {i[0].args[0] for i, v in ups} == set(range(int(m.group(1)))):
            b = z
    if b.op == "upd" and all(len(i) == 2 for i, v in ups):
        # columns replaced again; the column after a block of columns
        over = {i for i, v in ups}
        left = tuple(p for p in b.args[1] if p[0] not in over)
        if len(left) != len(b.args[1]):
            b = _upd(b.args[0], left) if left else b.args[0]
            return _upd(b, ups)
        if len(ups) == 1 and len(b.args[1]) == 1:
            (i1, v1), (i2, v2) = b.args[1][0], ups[0]
            if v1.op == "cols" and i1[0] is i2[0] and i1[1].op == "sl" and i2[1].op != "sl" and i2[1] is add(i1[1].args[0], i1[1].args[1]):
                k = mk("B", 0)
                if not contains(v1.args[1], lambda x: x.op == "B" and x is not k) and subst(v1.args[1], lambda x: v1.args[0] if x is k else None) is v2:
                    n = add(v1.args[0], ONE)
                    z = b.args[0]
                    if z.op == "undef" and len(z.args) == 2 and isinstance(z.args[1], tuple) and len(z.args[1]) == 2 and i1[1].args[0] is ZERO and z.args[1][1] is n and i1[0] is SLALL:
                        z = mk("undef", "M")
                    return _upd(z, (((i1[0], mk("sl", i1[1].args[0], n)), mk("cols", n, v1.args[1])),))
    # an element that gets back the value it has
    keep = tuple((i, v) for i, v in ups if not (v is index(b, i) and all(j is i or len(j) == len(i) and any(distinct(x, y) for x, y in zip(i, j)) for j, _ in ups)))
    if not keep:
        return b
    r = mk("upd", b, tuple(sorted(keep, key=lambda p: tuple(x.dig for x in p[0]))))
    MAT.add(r)
    return r


nf.REBUILD["upd"] = _upd


def _looped(dom, v, v0=None):
    # every iteration restores the initial value
    return v0 if v is v0 else mk("looped", dom, v) if v0 is None else mk("looped", dom, v, v0)


nf.REBUILD["looped"] = _looped


FIXEDVEC = re.compile(r"(?:const )?Eigen::(?:Matrix<double, |Vector)(\d+)(?:, 1|d\b)")


def fieldof(b, n):
    while b.op in ("deref", "addr") and len(b.args) == 1:
        b = b.args[0]
    if b.op == "updf":
        for k, v in b.args[1]:
            if k == n:
                return v
        return fieldof(b.args[0], n)
    if b.op == "ite":
        return ite(b.args[0], fieldof(b.args[1], n), fieldof(b.args[2], n))
    # changes of elements leave the fields of the object alone
    if b.op == "upd":
        return fieldof(b.args[0], n)
    if b in SAMEFLD:
        return fieldof(SAMEFLD[b], n)
    if b.op == "looped" and len(b.args) == 3:
        c = b.args[1]
        while c.op in ("upd", "looped") :
            c = c.args[0] if c.op == "upd" else c.args[2]
        if c.op == "cvl":
            return fieldof(b.args[2], n)
    if b.op == "struct":
        for k, v in b.args[0]:
            if k == n:
                return v
    if b.op == "i" and b.args[0].op == "upd":
        # an element of a changed list: only the changes of this very field matter
        b0, ups = b.args[0].args
        keep, same = [], True
        for i2, v in ups:
            e = index(b0, i2)
            w, fv = v, None
            while w.op == "updf" and fv is None:
                fv = next((x for k, x in w.args[1] if k == n), None)
                if fv is None:
                    w = w.args[0]
            if fv is None and w is e:
                same = False
                continue
            if fv is not None and v.op == "updf":
                x = v
                while x.op == "updf":
                    x = x.args[0]
                if x is e:
                    r = mk("updf", e, ((n, fv),))
                    same = same and r is v
                    v = r
            keep.append((i2, v))
        if not same:
            return fieldof(index(_upd(b0, tuple(keep)) if keep else b0, b.args[1]), n)
    return mk("f", b, n)


class State:
    __slots__ = ("store", "live")

    def __init__(s, store=None, live=T):
        s.store = store if store is not None else {}
        s.live = live

    def copy(s):
        return State(dict(s.store), s.live)


LOOPS = {"for", "while", "do", "rfor"}


class Frame:
    def __init__(s, fn, this):
        s.fn, s.this, s.env, s.rets = fn, this, {}, []
        s.alias = {}


SAMELEN = {}
SAMEFLD = {}


def length(v):
    while v.op == "upd" or v in SAMELEN:
        v = SAMELEN[v] if v in SAMELEN else v.args[0]
    if v.op == "setall":
        return length(v.args[0])
    if v.op == "zeros" and len(v.args[0]) == 1:
        return v.args[0][0]
    if v.op == "undef" and len(v.args) == 2 and isinstance(v.args[1], Term):
        return v.args[1]
    if v.op == "ite":
        return ite(v.args[0], length(v.args[1]), length(v.args[2]))
    if v.op == "i" and sum(x.op == "sl" for x in v.args[1]) == 1:
        s, n = next(x for x in v.args[1] if x.op == "sl").args
        if n is not ALL:
            return n
    if v.op == "cw":
        return length(v.args[0])
    if v.op == "arr":
        return v.args[0]
    if v.op == "ef" and v.args[0] in ELEM:
        return length(v.args[1])
    if v.op == "+":
        for m, c in v.args[0]:
            for a, x in m:
                if is_mat(a) and a.op != "ones":
                    return length(a)
    return mk("len", v)


ELEM = {"cwiseAbs": "abs", "abs": "abs", "cwiseSqrt": "sqrt", "sqrt": "sqrt"}


SIZECTOR = re.compile(r"\((?:const )?(?:unsigned )?(?:int|long|size_t|long long)(?: &)?\)$")


SIZES = re.compile(r"\((?:const )?(?:unsigned )?(?:int|long|size_t|long long)(?: &)?, ?(?:const )?(?:unsigned )?(?:int|long|size_t|long long)(?: &)?\)$")


def final_value(domt, body, brk):
    """value of a variable when a loop ends; a search loop left only by one break is the loop that runs while the break's condition fails"""
    if domt.op == "until" and domt.args[0] is mk("while", boolt(T)) and len(brk) == 1:
        domt, body, brk = mk("while", boolt(bnot(truth(domt.args[1])))), brk[0], ()
    if not brk and domt.op == "while" and body.op == "+":
        var = [(m, c) for m, c in body.args[0] if any(contains(f, lambda x: x.op in ("B", "self", "mu")) for f, _ in m)]
        if len(var) < len(body.args[0]):
            v = ZERO
            for m, c in var:
                v = add(v, mul(num(c), *[power(f, num(n)) for f, n in m]))
            return add(mk("final", domt, v, brk), sub(body, v))
    return mk("final", domt, body, brk)


class Summ:
    UNROLL = 12
    quiet = frozenset()
    MAXDEPTH = 12
    MAXFX = 6000

    def __init__(self, prog, opaque=None, handlers=None, linexpr=(), arith=(), ignore=None, inline=None, unroll=None, modsets=False):
        self.prog = prog
        self.modsets = modsets           # opaque member calls change only what their bodies change
        self.opaque = opaque or (lambda q, key: False)
        self.handlers = handlers or {}
        self.arith = set(arith)          # classes whose operators are interpreted algebraically
        self.ignore = ignore or (lambda q: False)
        self.inline_ok = inline or (lambda q: True)
        if unroll is not None:
            self.UNROLL = unroll
        self.fx = []
        self.frames = []
        self.st = State()
        self.base = [T]
        self.loops = []
        self.lctl = []
        self.uid = 0
        self.dry = 0
        self.file = ""
        self.stack = []
        self.modset = None
        self.unknown = []     # constructs not understood (reported, never silently dropped)
        self.inlined = set()
        self.wholes = {}
        self.loopmemo = {}

    nrvo = None

    # ---------------------------------------------------------------- entry
    scratch = ()        # members that only hold intermediate results: treated as local variables
    fullcols = None     # predicate (matrix, n): the matrix is known to have n columns

    def run(self, fn, args=None, this=THIS):
        """summarise one function; args: dict param name -> Term"""
        for n in self.scratch:
            self.st.store[mk("l", "$" + n, 0)] = mk("undef", "M")
        CURDOM[:] = []
        fr = Frame(fn, this)
        self.frames.append(fr)
        self.file = fn["file"]
        for p in fn["params"]:
            name, pid, tag = p[0], p[1], p[2]
            v = (args or {}).get(name)
            if v is None:
                v = mk("sym", name)
            self.tagterm(v, tag)
            if p[3] in ("r", "k") or reflike(p[4]) or tag == "p" or tag.startswith("o:") or tag.startswith("M:"):
                fr.env[pid] = v          # by-reference (or treated so: copy on write below)
                if p[3] == "" and tag != "p" and not reflike(p[4]):
                    l = mk("l", name, 0)
                    fr.env[pid] = l
                    self.st.store[l] = v
            else:
                l = mk("l", name, 0)
                fr.env[pid] = l
                self.st.store[l] = v
        if fn.get("inits"):
            for f, e, w in fn["inits"]:
                if f == "<base>":
                    self.val(e)
                    continue
                self.write(mk("f", this, f), self.val(e), fn["line"])
        self.block(fn["body"])
        if fr.rets:
            pass
        self.frames.pop()
        rv = None
        for g, v in reversed(fr.rets):
            if v is not None:
                rv = v if rv is None else ite(g, v, rv)
        self.retval = rv
        return self.fx

    def tagterm(self, t, tag):
        if tag == "f" and not is_num(t) and t not in MAT:
            SCAL.add(t)
        if tag.startswith("M:") and not is_num(t):
            MAT.add(t)
        elif tag == "i" and not is_num(t):
            INT.add(t)
        return t

    # ---------------------------------------------------------------- effects
    def guard(self):
        return band(*self.base, self.st.live)

    def emit(self, kind, target, value, line, extra=None):
        if self.st.live == F:
            return
        g = self.guard()
        if g == F:
            return
        fn = self.frames[-1].fn["name"] if self.frames else ""
        self.fx.append(Effect(kind, target, value, g, tuple(self.loops), line, self.file, fn, extra))
        if len(self.fx) > self.MAXFX:
            raise Giveup("too many effects")

    # ---------------------------------------------------------------- store
    def under(self, store, loc):
        """stored locations strictly below loc"""
        out = []
        for k in store:
            x = k
            while x.op in ("f", "i"):
                x = x.args[0]
                if x is loc:
                    out.append(k)
                    break
        return out

    def readin(self, store, loc):
        v = store.get(loc)
        chain = []
        a = loc
        while v is None and a.op in ("f", "i"):
            chain.append(a)
            a = a.args[0]
            v = store.get(a)
        if v is None:
            v = a
        if not store:
            return loc
        cur = a
        for nxt in reversed(chain):
            if nxt.op == "i":
                sib = [k for k in self.under(store, cur) if not self.isunder(k, nxt)]
                direct = {self.child_of(k, cur) for k in sib}
                if any(d.op == "i" and self.may_alias(d, nxt) for d in direct):
                    v = self.compose(store, cur, v, sib)
            if v is cur:
                v = nxt
            else:
                v = fieldof(v, nxt.args[1]) if nxt.op == "f" else index(v, nxt.args[1])
                if nxt in MAT and not is_num(v):
                    MAT.add(v)
            cur = nxt
        subs = self.under(store, loc)
        if subs:
            v = self.compose(store, loc, v, subs)
        return v

    @staticmethod
    def child_of(k, b):
        while k.args[0] is not b:
            k = k.args[0]
        return k

    @staticmethod
    def may_alias(d, n):
        return d is n or len(d.args[1]) != len(n.args[1]) or not any(distinct(x, y) for x, y in zip(d.args[1], n.args[1]))

    def compose(self, store, loc, basev, subs):
        direct = {}
        for k in subs:
            direct.setdefault(self.child_of(k, loc), []).append(k)
        idxs, flds = [], []
        for d, ks in direct.items():
            if d in store:
                bv = store[d]
            elif basev is loc:
                bv = d
            else:
                bv = fieldof(basev, d.args[1]) if d.op == "f" else index(basev, d.args[1])
            deeper = [k for k in ks if k is not d]
            if deeper:
                bv = self.compose(store, d, bv, deeper)
            (flds if d.op == "f" else idxs).append((d.args[1], bv))
        r = basev
        if idxs:
            ks = {}
            for i, v in idxs:
                if len(i) == 1 and is_num(i[0]):
                    ks[int(i[0].args[0])] = v
            if len(ks) == len(idxs) and basev.op == "vec" and all(k < len(basev.args[0]) for k in ks):
                l = list(basev.args[0])
                for k, v in ks.items():
                    l[k] = v
                r = mk("vec", tuple(l))
            elif len(ks) == len(idxs) and basev.op == "undefvec" and set(ks) == set(range(basev.args[0])):
                r = mk("vec", tuple(ks[k] for k in range(basev.args[0])))
            elif len(ks) == len(idxs) and basev.op == "zeros" and is_num(basev.args[0][0]) and basev.args[0][0].args[0] <= 64 and all(0 <= k < basev.args[0][0].args[0] for k in ks):
                r = mk("vec", tuple(ks[k] if k in ks else index(basev, (num(k),)) for k in range(int(basev.args[0][0].args[0]))))
            else:
                idxs.sort(key=lambda p: tuple(x.dig for x in p[0]))
                r = _upd(r, tuple(idxs))
        if flds:
            flds.sort()
            r = mk("updf", r, tuple(flds))
        return r

    def read(self, loc):
        if loc.op not in ("l", "f", "i", "sym", "this"):
            return loc
        return self.readin(self.st.store, loc)

    dims = {}

    def whole(self, r):
        """a slice over the full extent of a local matrix of constant size is the whole row or column"""
        if r.op == "i" and r.args[0] in self.dims:
            d = self.dims[r.args[0]]
            if len(d) == len(r.args[1]):
                return mk("i", r.args[0], tuple(SLALL if x.op == "sl" and x.args[0] is ZERO and x.args[1] is n else x for x, n in zip(r.args[1], d)))
        return r

    def write(self, loc, v, line, kind="set"):
        if loc.op == "ite":
            c, a, b = loc.args
            s0 = self.st
            self.st = State(dict(s0.store), band(s0.live, c))
            self.write(a, v, line, kind)
            sa = self.st
            self.st = State(dict(s0.store), band(s0.live, bnot(c)))
            self.write(b, v, line, kind)
            sb = self.st
            self.st = State(self.merge(c, sa.store, sb.store), s0.live)
            return
        if loc.op not in ("l", "f", "i", "sym"):
            if loc.op in ("this", "c", "deref", "+"):
                self.emit("set", loc, v, line)
                return
            self.emit("set", loc, v, line)
            return
        st = self.st.store
        if loc in self.dims and v is not ZERO and v.op not in ("zeros", "upd"):
            del self.dims[loc]
        for k in self.under(st, loc):
            del st[k]
        if loc.op == "i":
            b = loc.args[0]
            for k in list(st):
                if k.op == "i" and k.args[0] is b and k is not loc and (len(k.args[1]) != len(loc.args[1]) or not any(distinct(x, y) for x, y in zip(k.args[1], loc.args[1]))):
                    # overwritten region contains it?  otherwise value unknown
                    if all(self.covers(y, x) for x, y in zip(k.args[1], loc.args[1])) and len(k.args[1]) == len(loc.args[1]):
                        del st[k]
                    else:
                        st[k] = mk("havoc", k, st[k], loc.args[1], v)
        st[loc] = v
        if self.modset is not None:
            self.modset.add(loc)
        if not is_local(loc) and loc not in self.quiet:
            self.emit("set", loc, v, line)

    @staticmethod
    def covers(big, small):
        if big is small or big is SLALL:
            return True
        if big.op == "sl":
            s, n = big.args
            s2, n2 = small.args if small.op == "sl" else (small, ONE)
            d = sub(s2, s)
            if is_num(d) and d.args[0] >= 0:
                if n is ALL:
                    return True
                if n2 is not ALL:
                    e = sub(n, add(d, n2))
                    return is_num(e) and e.args[0] >= 0
        return False

    def havoc(self, loc, why):
        """location changed by something not modelled"""
        st = self.st.store
        for k in self.under(st, loc) + ([loc] if loc in st else []):
            if is_local(k):
                continue
            del st[k]
        if is_local(loc) or loc.op == "l":
            old = self.read(loc)
            for k in self.under(st, loc):
                del st[k]
            st[loc] = mk("after", why, old)
        if self.modset is not None:
            self.modset.add(loc)

    @staticmethod
    def cased(r, live):
        """cases that end in an exit are no cases afterwards"""
        if live > 1 and r.op == "ite" and set(bsupport(r.args[0])) & set(bsupport(live)):
            d = leaves(r, live)
            if d:
                return cases(d, live)
        return r

    def merge(self, c, s1, s2, live=T):
        if s1 is s2:
            return s1
        out = {}
        for k in set(s1) | set(s2):
            a, b = s1.get(k), s2.get(k)
            if a is b:
                out[k] = a
                continue
            if a is None:
                a = self.readin(s1, k)
            if b is None:
                b = self.readin(s2, k)
            r = self.cased(ite(c, a, b), live)
            out[k] = r
        return out

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            if self.st.live == F:
                return
            self.stmt(s)

    def branch(self, c, fa, fb):
        s0 = self.st
        live0 = s0.live
        if c == T:
            fa()
            return
        if c == F:
            fb()
            return
        sa = State(dict(s0.store), live0)
        # path condition as literal assumptions
        self.st = sa
        self.base.append(c)
        fa()
        sa = self.st
        self.base.pop()
        self.st = State(dict(s0.store), live0)
        self.base.append(bnot(c))
        fb()
        sb = self.st
        self.base.pop()
        la, lb = band(sa.live, c), band(sb.live, bnot(c))
        if la == F and lb == F:
            self.st = State(sa.store, F)
        elif la == F:
            self.st = State(sb.store, lb)
        elif lb == F:
            self.st = State(sa.store, la)
        else:
            self.st = State(self.merge(c, sa.store, sb.store, bor(la, lb)), bor(la, lb))

    def stmt(self, s):
        m = getattr(self, "s_" + s[0], None)
        if m is None:
            self.unknown.append((self.file, s[-1] if isinstance(s[-1], int) else 0, s[0]))
            return
        if s[0] in LOOPS:
            self.memo(s, m)
        else:
            m(s)

    def memo(self, s, m):
        """a loop inside trial passes over an enclosing loop is interpreted once per distinct state"""
        if not self.dry:
            self.loopmemo.clear()
            return m(s)
        try:
            key = (id(s), frozenset(self.st.store.items()), self.st.live, tuple(self.base), tuple(self.loops), self.uid, frozenset(self.quiet), tuple(CURDOM),
                   tuple((f.this, frozenset(f.env.items())) for f in self.frames), frozenset((k, frozenset(v)) for k, v in self.stable.items()), frozenset(self.fsplit), self.file)
        except TypeError:
            return m(s)
        hit = self.loopmemo.get(key)
        outer = self.modset
        if hit is not None:
            store, live, fx, mods, uid, envs, cvls, arrsrc = hit
            self.st = State(dict(store), live)
            self.fx.extend(fx)
            if outer is not None:
                outer |= mods
            self.uid = uid
            for f, e in zip(self.frames, envs):
                f.env = dict(e)
            self.cvls, self.arrsrc = cvls, arrsrc
            return
        self.modset = set()
        n = len(self.fx)
        before = self.exits()
        try:
            m(s)
        finally:
            mods = self.modset
            self.modset = outer
            if outer is not None:
                outer |= mods
        if self.exits() == before:
            self.loopmemo[key] = (dict(self.st.store), self.st.live, self.fx[n:], mods, self.uid, [dict(f.env) for f in self.frames], self.cvls, self.arrsrc)

    def exits(self):
        return [len(f.rets) for f in self.frames], [[len(v) for v in c.values() if isinstance(v, list)] for c in self.lctl]

    def s_nop(self, s):
        pass

    def s_block(self, s):
        self.block(s[1])

    def s_unks(self, s):
        self.unknown.append((self.file, s[2], s[1]))

    def s_label(self, s):
        self.stmt(s[2])

    def s_goto(self, s):
        self.emit("goto", mk("str", s[1]), None, s[2])
        self.unknown.append((self.file, s[2], "goto"))

    def s_expr(self, s):
        self.val(s[1], line=s[2])

    def s_decls(self, s):
        for d in s[1]:
            self.decl(d)

    def decl(self, d):
        _, name, vid, tag, init, ref, line, ty = d[:8]
        fr = self.frames[-1]
        if (ref or reflike(ty)) and init is not None:
            l = self.loc(init)
            v = mk("undef", ty)
            fr.env[vid] = l
            return
        if self.nrvo and len(self.frames) == 1 and vid == self.nrvo:
            l = mk("sym", "$result")
            fr.env[vid] = l
            if init is not None and init[0] != "ctor":
                self.write(l, self.val(init), line)
            elif init is not None:
                self.emit("new", l, self.val(init), line)
            return
        self.uid += 1
        l = mk("l", name, self.uid)
        self.tagterm(l, tag)
        fr.env[vid] = l
        if init is None:
            v = mk("undef", ty)
            if tag == "a":
                m = re.search(r"\[(\d+)\]$", ty)
                if m:
                    v = mk("undefvec", int(m.group(1)))
        else:
            v = self.val(init)
            if tag == "p" and v.op in ("l",):
                pass
        self.tagterm(v, tag)
        self.st.store[l] = v
        if v.op == "undef" and len(v.args) == 2 and isinstance(v.args[1], tuple) and ty.startswith("Eigen::Matrix<double, -1, -1"):
            self.dims = {**self.dims, l: v.args[1]}
        elif v is ZERO and ty.startswith("Eigen::Matrix<double, -1, -1"):
            x = init
            while x and x[0] in ("ctor", "cast") and isinstance(x[2], list) and x[2]:
                x = x[2][0] if x[0] == "ctor" else x[2]
            if x and x[0] == "call" and x[1].endswith("::Zero") and len(x[3]) == 2:
                self.dims = {**self.dims, l: tuple(self.val(a) for a in x[3])}

    def s_if(self, s):
        c = truth(self.val(s[1]))
        self.branch(c, lambda: self.block(s[2]), lambda: self.block(s[3]))

    def s_ret(self, s):
        fn0 = self.frames[-1].fn
        v = self.val(s[1]) if s[1] is not None and not (fn0.get("retref") or reflike(fn0.get("rtype"))) else (self.loc(s[1]) if s[1] is not None else None)
        fr = self.frames[-1]
        if len(self.frames) > 1 and v is not None and is_local(v) and v.op == "l" and not fn0.get("retref"):
            v = self.read(v)
        rel = self.rel_guard(fr)
        fr.rets.append((rel, v))
        if len(self.frames) == 1:
            self.emit("ret", None, v, s[2])
        self.loop_return()
        self.st.live = F

    def rel_guard(self, fr):
        b = getattr(fr, "basemark", 0)
        return band(*self.base[b:], self.st.live)

    def loop_return(self):
        if self.lctl and self.lctl[-1].get("frame") is self.frames[-1]:
            self.lctl[-1]["ret"].append(self.rel_loop())

    def rel_loop(self):
        c = self.lctl[-1]
        return band(*self.base[c["basemark"]:], self.st.live)

    def s_throw(self, s):
        v = self.val(s[1]) if s[1] is not None else None
        if v is not None and v.op in ("ctor", "struct", "new") and v.args and isinstance(v.args[0], str):
            v = mk("str", v.args[0])      # the kind of exception, not its message
        self.emit("throw", None, v, s[2])
        self.st.live = F

    def s_break(self, s):
        if not self.lctl:
            return
        self.lctl[-1]["brk"].append((self.rel_loop(), dict(self.st.store)))
        self.st.live = F

    def s_cont(self, s):
        # skip switch contexts
        for c in reversed(self.lctl):
            if c["kind"] == "loop":
                c["cont"].append((band(*self.base[c["basemark"]:], self.st.live), dict(self.st.store)))
                break
        self.st.live = F

    def s_switch(self, s):
        x = self.val(s[1])
        labels = []
        for g in s[2]:
            if g[0] == "case" and g[1] is not None:
                labels.append(self.val(g[1]))
        allc = [eq(x, l) for l in labels]
        ctl = {"kind": "switch", "brk": [], "cont": [], "ret": [], "basemark": len(self.base), "frame": self.frames[-1]}
        self.lctl.append(ctl)
        entry = self.st
        live0 = entry.live
        store0 = dict(entry.store)
        cur = State(dict(store0), F)
        defined_default = False
        self.st = cur
        for g in s[2]:
            if g[0] == "case":
                if g[1] is None:
                    c = bnot(bor(*allc))
                    defined_default = True
                else:
                    c = eq(x, self.val(g[1]))
                # join fallthrough with case entry
                if self.st.live == F:
                    self.st = State(dict(store0), band(live0, c))
                else:
                    self.st = State(self.merge(c, store0, self.st.store), bor(self.st.live, band(live0, c)))
            else:
                if self.st.live != F:
                    self.stmt(g)
        if not defined_default:
            c = bnot(bor(*allc))
            if self.st.live == F:
                self.st = State(dict(store0), band(live0, c))
            else:
                self.st = State(self.merge(c, store0, self.st.store), bor(self.st.live, band(live0, c)))
        self.lctl.pop()
        if ctl["ret"] and self.lctl and self.lctl[-1].get("frame") is self.frames[-1]:
            self.lctl[-1]["ret"] += ctl["ret"]
        for g, store in ctl["brk"]:
            if self.st.live == F:
                self.st = State(store, g)
            else:
                self.st = State(self.merge(g, store, self.st.store), bor(self.st.live, g))
        if beq(self.st.live, live0):
            self.st.live = live0

    def s_try(self, s):
        s0 = self.st.copy()
        self.block(s[1])
        end = self.st
        for h in s[2]:
            exc = bvar(mk("exc", h[0] if isinstance(h[0], str) else str(h[0])))
            self.st = State(dict(s0.store), s0.live)
            # state at the raise point is unknown: forget what the body wrote
            for k in list(self.st.store):
                if end.store.get(k) is not s0.store.get(k) and is_local(k):
                    self.st.store[k] = mk("havoc", k, ZERO)
            self.base.append(exc)
            self.block(h[2])
            self.base.pop()
            hl = band(self.st.live, exc)
            if hl == F:
                end = State(end.store, band(end.live, bnot(exc)))
            else:
                end = State(self.merge(exc, self.st.store, end.store), bor(band(end.live, bnot(exc)), hl))
        self.st = end

    # ---------------------------------------------------------------- loops
    def s_for(self, s):
        _, init, cond, inc, body, line = s
        if init is not None:
            self.stmt(init)
        self.loop(lambda: T if cond is None else truth(self.val(cond)),
                  lambda: self.block(body),
                  (lambda: self.val(inc)) if inc is not None else (lambda: None), line)

    def s_while(self, s):
        self.loop(lambda: truth(self.val(s[1])), lambda: self.block(s[2]), lambda: None, s[3])

    def s_do(self, s):
        first = [True]
        self.loop(lambda: truth(self.val(s[1])), lambda: self.block(s[2]), lambda: None, s[3], post=True)

    def s_rfor(self, s):
        _, d, rng, body, line = s
        r = self.loc(rng)
        rv = self.read(r)
        if rv.op == "list" or (rv.op == "vec"):
            items = rv.args[0]
            self.unrolled([lambda it=it: self.bindloopvar(d, it) for it in items], lambda: self.block(body), line)
            return
        n = mk("len", rv)
        self.count_loop(n, lambda L: self.bindloopvar(d, index(r, (L,))), lambda: self.block(body), line)

    def bindloopvar(self, d, t):
        _, name, vid, tag, init, ref = d[:6]
        fr = self.frames[-1]
        self.tagterm(t, tag)
        if ref:
            fr.env[vid] = t
        else:
            self.uid += 1
            l = mk("l", name, self.uid)
            fr.env[vid] = l
            self.st.store[l] = self.read(t)

    def unrolled(self, binders, body, line):
        ctl = {"kind": "loop", "brk": [], "cont": [], "ret": [], "basemark": len(self.base), "frame": self.frames[-1]}
        self.lctl.append(ctl)
        for b in binders:
            if self.st.live == F:
                break
            b()
            ctl["cont"] = []
            body()
            self.join_cont(ctl)
        self.lctl.pop()
        self.join_brk(ctl)

    def join_cont(self, ctl):
        for g, store in ctl["cont"]:
            if self.st.live == F:
                self.st = State(store, g)
            else:
                self.st = State(self.merge(g, store, self.st.store), bor(self.st.live, g))
        ctl["cont"] = []

    def join_brk(self, ctl):
        for g, store in ctl["brk"]:
            if self.st.live == F:
                self.st = State(store, g)
            else:
                self.st = State(self.merge(g, store, self.st.store), bor(self.st.live, g))
        ctl["brk"] = []

    def depth(self):
        return len(self.loops)

    def loop(self, cond, body, inc, line, post=False):
        """generic loop: closed forms for induction variables, counted domain when linear"""
        L = mk("L", self.depth())
        if cond is not None:
            # what the path to the loop decides is decided in its condition
            cond0, g0 = cond, self.guard()

            def cond():
                c = cond0()
                if g0 != T and c not in (T, F) and len(bsupport(c)) > 1:
                    for v in bsupport(c):
                        if bsat_implies(g0, bvar(v)):
                            c = brestrict(c, v, True)
                        elif bsat_implies(g0, bnot(bvar(v))):
                            c = brestrict(c, v, False)
                return c
        # try pure unrolling first: step concretely while the condition is decided
        if not post and self.try_unroll(cond, body, inc, line):
            return
        st0 = self.st.copy()
        # pass A: which locations change
        mod = self.dry_mod(lambda: (body_once(self, cond, body, inc, line)))
        self.split_fields(mod, st0)
        self.stable = dict(self.stable)
        self.stable[self.depth()] = ()
        w0 = self.loop_carried(cond, body, inc, line, mod, st0, [])
        enter = w0[4]
        cur0 = list(CURDOM)
        outerdoms = (cur0 + [mk("dry")] * self.depth())[:self.depth()]
        d0 = None
        if not post:
            sv = self.dry_begin()
            try:
                enter()
                for l, d in w0[3 - 1].items():
                    self.st.store[l] = add(st0.store[l] if l in st0.store else self.readin(st0.store, l), mul(d, L))
                d0, x0 = domain(cond(), L)
            finally:
                self.dry_done(sv)
            at = list(bsupport(x0))
            if d0 is not None and len(at) == 1 and not contains(at[0], lambda x: x is L or x in mod or x.op in ("cv", "cvl", "cvd", "havoc", "looped", "after", "mu", "final", "unk", "first", "while", "until")):
                # part of the condition that no iteration changes: all iterations or none
                CURDOM[:] = cur0
                pol = x0 == bvar(at[0])
                return self.branch(x0, lambda: self.loop(lambda: brestrict(cond(), at[0], pol), body, inc, line), lambda: None)
        CURDOM[:] = outerdoms + [d0 if d0 is not None else mk("dry")]
        seen = {}

        def general():
            enter()
            seen["cvls"] = dict(self.cvls)
            body_once(self, cond, body, inc, line)
            seen["fx"], seen["store"] = list(self.fx), dict(self.st.store)
        gmod = self.dry_mod(general)
        mod = mod | {m for m in gmod if not is_local(m) or m.op == "l"}
        nl = [m for m in gmod if self.accumulator(m, gmod)]
        self.stable[self.depth()] = self.stable_bases(gmod, w0[5]) - self.recurrent(seen, gmod, w0[5])
        while True:
            wk, ends, induct, muls, enter, sub_ind = self.loop_carried(cond, body, inc, line, mod, st0, nl)
            bad = [m for m in nl if not (m in induct or (m in muls and muls[m][0] == "sum"))]
            if not bad and nl:
                # only for plain counted loops that always run to their end
                sv = self.dry_begin()
                try:
                    enter()
                    for l, d in induct.items():
                        self.st.store[l] = add(st0.store[l] if l in st0.store else self.readin(st0.store, l), mul(d, L))
                    d0, x0 = (None, T) if post else domain(cond(), L)
                    if d0 is None or x0 != T or d0.op in ("while", "dowhile"):
                        bad = list(nl)
                    elif body_once2(self, body, inc) != F or any(e.kind == "throw" for e in self.fx):
                        bad = list(nl)
                finally:
                    self.dry_done(sv)
            if not bad:
                break
            nl = [m for m in nl if m not in bad]
        init = {m: self.readin(st0.store, m) for m in nl}
        quiet0 = self.quiet
        self.quiet = quiet0 | set(nl)
        # real pass
        enter()
        cvls, fxmark = self.cvls, len(self.fx)
        val0 = lambda l: init[l] if l in init else st0.store[l]
        for l, d in induct.items():
            self.st.store[l] = add(val0(l), mul(d, L))
        for l, (k, d) in muls.items():
            if k == "sum":
                self.st.store[l] = add(val0(l), mk("psum", d))
                if l in MAT:
                    MAT.add(self.st.store[l])
            elif k == "app":
                self.st.store[l] = mk("plist", st0.store[l], d)
            else:
                self.st.store[l] = d
        ctl = {"kind": "loop", "brk": [], "cont": [], "ret": [], "basemark": 0, "frame": self.frames[-1]}
        dom, extra = None, T
        if not post:
            c = cond()
            dom, extra = domain(c, L)
        if dom is None:
            dom = mk("while", boolt(bindform(c, self.depth())) if not post else mk("post"))
            extra = T
        # break/return annotation needs the body's exit conditions: dry run
        brkf = self.dry_exits(lambda: body_once2(self, body, inc), enter_state=self.st)
        stop = bor(brkf, bnot(extra))
        domt = dom if stop == F else mk("until", dom, boolt(bindform(stop, self.depth())))
        if post:
            # do { } while(c): the continuation test is evaluated after the body
            dom = mk("dowhile")
            pc = self.dry_postcond(body, cond)
            domt = mk("until", dom, boolt(bindform(pc, self.depth()))) if pc is not None else dom
        live0 = st0.live
        self.base.append(live0)
        self.loops.append(domt)
        CURDOM[:] = outerdoms + [dom]
        outer_mod, self.modset = self.modset, set()
        ctl["basemark"] = len(self.base)
        self.lctl.append(ctl)
        self.st.live = T
        if extra != T and not post:
            self.base.append(extra)
        body()
        self.join_cont(ctl)
        if extra != T and not post:
            self.base.pop()
        inc() if self.st.live != F else None
        if post:
            cond()
        self.lctl.pop()
        self.loops.pop()
        self.base.pop()
        CURDOM[:] = cur0
        realmod = self.modset
        self.modset = outer_mod
        if outer_mod is not None:
            outer_mod |= realmod
        # after the loop
        out = {}
        fin = self.st.store
        arrs = {}
        if not ctl["brk"] and not ctl["ret"] and extra == T and dom.op not in ("while", "dowhile") and not post and self.st.live != F:
            arrs = self.filled_arrays(fin, realmod, nl, dom)
        for k in st0.store:
            if k in induct and not ctl["brk"] and not ctl["ret"] and extra == T and dom.op not in ("while", "dowhile"):
                out[k] = add(st0.store[k], mul(induct[k], dom))
            elif k in muls and muls[k][0] == "sum" and not ctl["brk"] and extra == T and dom.op not in ("while", "dowhile"):
                out[k] = add(st0.store[k], mksum(dom, muls[k][1], self.depth()))
                if k in MAT:
                    MAT.add(out[k])
            elif k in muls and muls[k][0] == "app" and not ctl["brk"] and extra == T and dom.op not in ("while", "dowhile"):
                cm = mk("comp", dom, bindvar(muls[k][1], self.depth()))
                out[k] = cm if st0.store[k].op == "list" and not st0.store[k].args[0] else mk("concat", st0.store[k], cm)
            elif k in wk and extra == T and not post and not ctl["ret"] and self.exit_flag(k, wk, ends, sub_ind, ctl, stop, dom, st0) is not None:
                out[k] = self.exit_flag(k, wk, ends, sub_ind, ctl, stop, dom, st0)
            elif k in wk and k in muls and muls[k][0] == "mu" and not ctl["brk"] and not ctl["ret"] and extra == T and not post and dom.op not in ("while", "dowhile") \
                    and not contains(ends[k], lambda x: x in set(wk.values()) - set(sub_ind) or x.op in ("cvl", "havoc")) and self.loopinv(ends[k], mod):
                # assigned anew in every iteration: the value of the last one
                e = subst(ends[k], lambda x: sub_ind.get(x))
                out[k] = ite(lt(ZERO, dom), subst(e, lambda x: sub(dom, ONE) if x is L else None), st0.store[k])
                if k in MAT:
                    MAT.add(out[k])
            elif k in wk:
                body_t = muls[k][1] if k in muls else (sub_ind.get(wk[k]) or wk[k])
                brkv = []
                for g, store in ctl["brk"]:
                    brkv.append(self.readin(store, k))
                out[k] = final_value(domt, bindvar(body_t, self.depth()), bindvar(tuple(brkv), self.depth()))
                if k in MAT:
                    MAT.add(out[k])
            elif any(self.touch(k, m) for m in mod):
                if k in arrs:
                    out[k] = arrs.pop(k)
                elif is_local(k) and root(k) in {root(a) for a in arrs} and not any(self.touch(k, m) for m in realmod if not any(m in v[1] for v in self.arrsrc.values())):
                    out[k] = st0.store[k]
                elif is_local(k) and k in fin and cvls.get(k) is fin[k] and all(b.get(k) is fin[k] for _, b in ctl["brk"]):
                    out[k] = st0.store[k]           # every iteration restores it
                elif is_local(k):
                    out[k] = self.columns(k, dom, fin.get(k, k), st0.store[k]) or mk("looped", domt, bindvar(fin.get(k, k), self.depth()), st0.store[k])
                    if all(m.op == "i" and m.args[0] is k for m in mod if self.touch(k, m)):
                        SAMELEN[out[k]] = st0.store[k]
            else:
                out[k] = st0.store[k]
        arrmod = {m for v in self.arrsrc.values() for m in v[1]}
        for k, v in arrs.items():
            if is_local(k) and root(k) not in out:
                continue
            self.place_array(out, k, v)
        for k in list(mod):
            if root(k) in {root(m) for m in arrmod} and root(k) in out and not any(self.touch(root(k), m) for m in realmod if m not in arrmod):
                continue
            if k.op in ("f", "i") and is_local(k) and k not in out and root(k) in st0.store:
                v1, v0 = self.readin(fin, root(k)), self.readin(st0.store, root(k))
                out[root(k)] = self.columns(root(k), dom, v1, v0) or mk("looped", domt, bindvar(v1, self.depth()), v0)
                MAT.add(out[root(k)])
                for u in self.under(out, root(k)):
                    out.pop(u, None)
        live = live0
        if ctl["ret"]:
            ex = bvar(mk("exists", dom, boolt(bindform(bor(*ctl["ret"]), self.depth()))))
            live = band(live, bnot(ex))
            fr = self.frames[-1]
            fr.rets = [(ex if contains_L(g, self.depth()) or True and g in ctl["ret"] else g, mk("first", domt, bindvar(v, self.depth())) if v is not None and contains(v, lambda x: x is L) else v) if g in ctl["ret"] else (g, v) for g, v in fr.rets]
            if self.lctl and self.lctl[-1].get("frame") is fr:
                self.lctl[-1]["ret"].append(band(live0, ex))
        if cvls and self.dry == 0:
            self.close_cvls(cvls, fxmark, fin, st0, out)
        self.st = State(out, live)
        self.quiet = quiet0
        for m in nl:
            for k in self.under(self.st.store, m):
                del self.st.store[k]
            d = induct.get(m)
            v = add(init[m], mul(d, dom)) if d is not None else add(init[m], mksum(dom, muls[m][1], self.depth()))
            if m in MAT:
                MAT.add(v)
            self.write(m, v, line)

    def exit_flag(self, k, wk, ends, sub_ind, ctl, stop, dom, st0):
        """a value that only records whether some iteration met a condition: the same for a search that stops there and for one that goes on"""
        if ends is None or dom.op in ("while", "dowhile"):
            return None
        L, c, init, end = mk("L", self.depth()), wk[k], st0.store[k], subst(ends[k], lambda x: sub_ind.get(x))
        carried = lambda x: x is L or x.op in ("cv", "cvl") and x.args[0] == self.depth() or x.op == "havoc"
        const = lambda t: (t.op in ("b", "n", "sym", "str") and not contains(t, carried))
        if ctl["brk"]:
            vals = {self.readin(store, k) for _, store in ctl["brk"]}
            if len(vals) != 1:
                return None
            hit = vals.pop()
            if not const(hit) or not (end is c or const(end)) or fcontains(stop, lambda x: carried(x) and x is not L):
                return None
            cond, rest = stop, (init if end is c else end)
        else:
            if end.op == "ite" and end.args[2] is c and const(end.args[1]):
                cond, hit, rest = end.args[0], end.args[1], init
            elif end.op == "ite" and end.args[1] is c and const(end.args[2]):
                cond, hit, rest = bnot(end.args[0]), end.args[2], init
            elif end.op == "b" and truth(c) in (T, F) or end.op != "b":
                return None
            else:
                # flag = flag or c, flag = flag and c
                on, off = fsubst(end.args[0], lambda x: boolt(T) if x is c else None), fsubst(end.args[0], lambda x: boolt(F) if x is c else None)
                if on == T and off != F:
                    cond, hit, rest = off, boolt(T), init
                elif off == F and on != T:
                    cond, hit, rest = bnot(on), boolt(F), init
                else:
                    return None
            if fcontains(cond, lambda x: carried(x) and x is not L):
                return None
        ex = bvar(mk("exists", dom, boolt(bindform(cond, self.depth()))))
        if rest is not init and rest is not hit:
            rest = ite(lt(ZERO, dom), rest, init)
        return ite(ex, hit, rest)

    def close_cvls(self, cvls, fxmark, fin, st0, out):
        """loop-carried local arrays and objects, as read inside the loop, become (entry value, value after one iteration)"""
        cs = {c: k for k, c in cvls.items()}

        def used(t):
            return {x for x in subterms(t) if x in cs}
        seen = set()
        for e in self.fx[fxmark:]:
            for t in (e.target, e.value) + tuple(e.loops):
                if t is not None:
                    seen |= used(t)
            for a in bsupport(e.guard):
                seen |= used(a)
        for v in out.values():
            seen |= used(v)
        if not seen:
            return
        d = self.depth()
        body, entry = {}, {}
        todo = list(seen)
        dep = {}
        while todo:
            c = todo.pop()
            if c in body:
                continue
            body[c] = self.readin(fin, cs[c])
            entry[c] = self.readin(st0.store, cs[c])
            dep[c] = used(body[c])
            todo.extend(dep[c])
        rep = {}
        # what an iteration leaves as it found it has its initial value throughout
        while True:
            fixed = {c: entry[c] for c in body if c not in rep and body[c] is c and not used(entry[c])}
            if not fixed:
                break
            rep.update(fixed)
            body = {c: subst(b, fixed.get) for c, b in body.items()}
            dep = {c: used(b) for c, b in body.items()}
        for c in seen:
            if c in rep:
                continue
            grp, todo = [c], [c]
            while todo:
                for x in sorted(dep[todo.pop()]):
                    if x not in grp:
                        grp.append(x)
                        todo.append(x)
            anon = lambda y: mk("selfc", d, 0) if y in cs else (mk("l", "$") if y.op == "l" else None)
            order = sorted(grp, key=lambda x: (subst(entry[x], anon).dig, subst(body[x], anon).dig))
            ren = {x: mk("selfc", d, i) for i, x in enumerate(order)}
            defs = bindvar(tuple((entry[x], subst(body[x], lambda y: ren.get(y))) for x in order), d)
            rep[c] = mk("cvd", order.index(c), defs)
            if c in MAT:
                MAT.add(rep[c])
        memo = {}
        s = lambda t: subst(t, rep.get, memo) if t is not None else None
        for i in range(fxmark, len(self.fx)):
            e = self.fx[i]
            self.fx[i] = Effect(e.kind, s(e.target), s(e.value), fsubst(e.guard, rep.get, memo), tuple(s(x) for x in e.loops), e.line, e.file, e.fn, e.extra)
        for k in list(out):
            out[k] = s(out[k])

    arrsrc = {}

    def filled_arrays(self, fin, mod, nl, dom):
        """consecutive elements that one plain counted loop stores: {slice location: array value}"""
        d = self.depth()
        L = mk("L", d)
        out = {}
        self.arrsrc = {}
        for m in sorted(mod):
            if m.op != "i" or m not in fin or m in nl or contains(m.args[0], lambda x: x is L or x.op in ("cvl", "cv", "havoc", "looped", "after")):
                continue
            pos = [k for k, x in enumerate(m.args[1]) if contains(x, lambda y: y is L)]
            if len(pos) != 1 or any(x.op == "sl" for x in m.args[1]):
                continue
            off = sub(m.args[1][pos[0]], L)
            if contains(off, lambda x: x is L or x.op in ("cv", "cvl", "havoc")):
                continue
            if any(x is not m and self.touch(x, m) for x in mod if not (is_local(x) and x.op == "l" and x is not root(m))):
                continue
            v = fin[m]
            if contains(v, lambda x: x.op in ("cv", "cvl", "havoc", "looped", "after", "mu", "psum", "plist", "unk") or x is not m and x.op in ("f", "i") and self.touch_slice(x, m)):
                continue
            if any(x in mod for x in subterms(v) if x is not m):
                continue
            idx = tuple(mk("sl", off, dom) if k == pos[0] else x for k, x in enumerate(m.args[1]))
            loc = mk("i", m.args[0], idx)
            MAT.add(loc)
            out[loc] = arr_make(dom, v, d)
            self.arrsrc[loc] = (m, {m})
        return out

    stable = {}
    fsplit = frozenset()

    def stable_bases(self, gmod, sub_ind):
        """arrays of which iteration L touches element L+const only: inside the loop their old elements are the ones from before it"""
        L = mk("L", self.depth())
        gm = {subst(m, lambda x: sub_ind.get(x)) for m in gmod}
        out = set()
        for m in gm:
            if m.op != "i":
                continue
            pos = [k for k, x in enumerate(m.args[1]) if contains(x, lambda y: y is L)]
            if len(pos) != 1 or m.args[1][pos[0]].op == "sl" or contains(m, lambda x: x.op in ("cv", "cvl", "havoc", "looped")) or contains(m.args[0], lambda x: x is L):
                continue
            o = sub(m.args[1][pos[0]], L)
            if contains(o, lambda x: x is L):
                continue
            if any(x is not m and self.touch(x, m) for x in gm):
                continue
            out.add(m.args[0])
        return out

    def recurrent(self, seen, gmod, sub_ind):
        """local arrays of which an iteration may read what earlier iterations left: anything but the element at its own index"""
        L = mk("L", self.depth())
        cs = {c: k for k, c in seen.get("cvls", {}).items()}
        if not cs:
            return set()
        bad, done = set(), set()
        written = {}
        for m in gmod:
            if m.op == "i":
                written.setdefault(m.args[0], []).append(tuple(subst(j, sub_ind.get) for j in m.args[1]))

        def ok(x):
            idx = tuple(subst(j, sub_ind.get) for j in x.args[1])
            for w in written.get(cs[x.args[0]], ()):
                if len(w) == len(idx) and all(a is b or sub(a, b).op == "n" and sub(a, b).args[0] > 0 for a, b in zip(idx, w)):
                    return True
            return False

        def visit(t, own=None):
            if not isinstance(t, nf.Term):
                if isinstance(t, tuple):
                    for y in t:
                        visit(y, own)
                return
            if t in cs:
                if cs[t] is not own:
                    bad.add(cs[t])
                return
            if (t, own) in done:
                return
            done.add((t, own))
            if t.op == "i" and t.args[0] in cs and ok(t):
                visit(t.args[1])
                return
            if t.op == "upd" and t.args[0] in cs and cs[t.args[0]] is own:
                for y in t.args[1:]:
                    visit(y)
                return
            for y in t.args:
                visit(y)
        for e in seen["fx"]:
            for t in (e.target, e.value) + tuple(e.loops):
                if t is not None:
                    visit(t)
            for a in bsupport(e.guard):
                visit(a)
        for k, v in seen["store"].items():
            visit(v, k)
        return bad

    def touch_slice(self, x, m):
        """x may denote an element of the array m writes to"""
        return x.op == "i" and x.args[0] is m.args[0]

    def columns(self, k, dom, v, v0):
        """a local matrix of which iteration L of a plain counted loop replaces column L as a whole"""
        d = self.depth()
        L = mk("L", d)
        if v.op == "ite" and v.args[1].op != v.args[2].op:
            a, b = v.args[1:]
            if a.op == "upd" and b is a.args[0] and len(a.args[1]) == 1 and v0 is ZERO:
                v = mk("upd", b, ((a.args[1][0][0], ite(v.args[0], a.args[1][0][1], ZERO)),))
            elif b.op == "upd" and a is b.args[0] and len(b.args[1]) == 1 and v0 is ZERO:
                v = mk("upd", a, ((b.args[1][0][0], ite(v.args[0], ZERO, b.args[1][0][1])),))
        if v.op == "upd":
            r = self.running_sum(k, dom, v, v0)
            if r is not None:
                return r
        if v.op != "upd" or v.args[0].op not in ("cvl", "cvd") and v.args[0] is not v0 or len(v.args[1]) != 1:
            return None
        idx, x = v.args[1][0]
        if len(idx) != 2 or idx[0].op != "sl" or contains(idx[0], lambda y: y is L):
            return None
        off = sub(idx[1], L)
        bad = lambda y: y.op in ("cv", "cvl", "cvd", "havoc", "looped", "after", "mu", "psum", "plist", "unk")
        if contains(off, lambda y: y is L or bad(y)) or contains(x, bad):
            return None
        dims = self.dims.get(k)
        rows = idx[0]
        if dims is not None and len(dims) == 2 and rows.args[0] is ZERO and rows.args[1] is dims[0]:
            rows = SLALL
        if rows is SLALL and off is ZERO and (dims is not None and len(dims) == 2 and dims[1] is dom or self.fullcols is not None and self.fullcols(v0, dom)):
            v0 = mk("undef", "M")
        r = _upd(v0, (((rows, mk("sl", off, dom)), mk("cols", dom, bindvar(x, d))),))
        MAT.add(r)
        return r

    def running_sum(self, k, dom, v, v0):
        """consecutive elements of a row that hold the sum of the values so far"""
        d = self.depth()
        L = mk("L", d)
        has = lambda t: contains(t, lambda y: y is L)
        ups = [(i, x) for i, x in v.args[1] if has(mk("t", *i))]
        if len(ups) != 1 or len(ups[0][0]) != 2 or ups[0][0][0].op == "sl" or has(ups[0][0][0]) or any(i[0] is not ups[0][0][0] or index(v0, i) is not x for i, x in v.args[1] if (i, x) != ups[0]):
            return None
        (i0, i1), x = ups[0]
        off = sub(i1, L)
        if has(off) or x.op != "+":
            return None
        bad = lambda y: y.op in ("cv", "cvl", "cvd", "havoc", "looped", "after", "mu", "psum", "plist", "unk")
        g, a = None, ZERO
        for mono, c in x.args[0]:
            if c != 1 or len(mono) != 1 or mono[0][1] != 1:
                continue
            t = mono[0][0]
            r = sub(x, t)
            if t.op == "psum" and len(t.args) == 1:
                if t.args[0] is r:
                    g = r
            elif t.op == "i" and t.args[1] == (i0, sub(i1, ONE)) and contains(t.args[0], lambda y: y.op in ("cvl", "cvd")) and off is not ZERO:
                b = t.args[0]
                while b.op == "upd":
                    b = b.args[0]
                if b is v.args[0]:
                    g, a = r, index(v0, (i0, sub(off, ONE)))
            if g is not None:
                break
        if g is None or contains(g, bad) or contains(mk("t", off, i0), bad):
            return None
        n, z = dom, v0
        if off is ONE and z.op == "upd" and a is subst(g, lambda y: num(-1) if y is L else None):
            left = tuple(p for p in z.args[1] if p[0] != (i0, ZERO))
            z = _upd(z.args[0], left) if left else z.args[0]
            g, a, off, n = subst(g, lambda y: sub(L, ONE) if y is L else None), ZERO, ZERO, add(dom, ONE)
        dims = self.dims.get(k)
        if dims is not None and len(dims) == 2 and dims[0] is ONE and i0 is ZERO and off is ZERO and dims[1] is n:
            z = mk("undef", "M")
        r = _upd(z, (((i0, mk("sl", off, n)), mk("scan", n, bindvar(g, d), a)),))
        MAT.add(r)
        return r

    def place_array(self, out, loc, v):
        b = loc.args[0]
        for k in self.under(out, loc):
            del out[k]
        bv = out.get(b)
        if bv is not None and len(loc.args[1]) == 1 and loc.args[1][0].args[0] is ZERO and length(bv) is loc.args[1][0].args[1]:
            out[b] = v
            return
        for k in list(out):
            if k.op == "i" and k.args[0] is b and self.may_alias(k, loc):
                out[k] = mk("havoc", k, out[k], loc.args[1], v)
        out[loc] = v

    def accumulator(self, m, mod):
        """a stored location that stays the same one throughout the loop and that no other store of the loop can touch"""
        if m.op not in ("f", "i") or is_local(m) or m.op == "i" and any(x.op == "sl" for x in m.args[1]):
            return False
        d = self.depth()
        L = mk("L", d)
        if contains(m, lambda x: x is L or x.op in ("cvl", "havoc", "mu", "looped", "after", "final", "unk") or x.op == "cv" and x.args[0] >= d or x.op == "l" or x in mod and x is not m):
            return False
        for k in mod:
            if k is m or root(k) is not root(m):
                continue
            if self.isunder(k, m) or self.isunder(m, k):
                return False
            if not self.apart(k, m):
                return False
        return True

    def split_fields(self, mod, st0):
        """a loop that changes only some fields of a local struct leaves the others alone"""
        byroot = {}
        for m in mod:
            if is_local(m):
                byroot.setdefault(root(m), []).append(m)
        for r, ms in byroot.items():
            # element writes count as writes to the field that holds the elements
            while any(m.op == "i" for m in ms):
                ms = list(dict.fromkeys(m.args[0] if m.op == "i" else m for m in ms))
            if r.op != "l" or r not in st0.store or not all(m.op == "f" and all(x.op in ("f", "l") for x in self.chain(m)) for m in ms):
                self.fsplit = self.fsplit - {r}
                continue
            if any(self.isunder(a, b) for a in ms for b in ms if a is not b):
                continue
            for m in ms:
                if m not in st0.store:
                    st0.store[m] = self.readin(st0.store, m)
            self.fsplit = self.fsplit | {r}

    @staticmethod
    def chain(m):
        while True:
            yield m
            if m.op not in ("f", "i"):
                return
            m = m.args[0]

    def touch(self, k, m):
        if k.op == "l" and m.op in ("f", "i") and k in self.fsplit:
            return False
        if m is k or self.isunder(k, m) or self.isunder(m, k):
            return True
        return root(k) is root(m) and k.op != "l" and m.op != "l" and not self.apart(k, m)

    @staticmethod
    def apart(a, b):
        """certainly different locations of one root"""
        def path(x):
            p = []
            while x.op in ("f", "i"):
                p.append(x)
                x = x.args[0]
            return p[::-1]
        for x, y in zip(path(a), path(b)):
            if x is y:
                continue
            if x.op != y.op:
                return False
            if x.op == "f":
                return True
            if len(x.args[1]) != len(y.args[1]):
                return False
            if any(distinct(p, q) for p, q in zip(x.args[1], y.args[1])):
                return True
            return False
        return False

    def loop_carried(self, cond, body, inc, line, mod, st0, nl):
        L = mk("L", self.depth())
        init = dict(st0.store)
        for m in nl:
            init[m] = self.readin(st0.store, m)
        st0 = State(init, st0.live)
        ends = None
        carries = [l for l in mod if (l.op == "l" or l.op == "f" and root(l) in self.fsplit) and l in st0.store and l not in nl] + nl
        wk = {l: mk("cv", self.depth(), k) for k, l in enumerate(sorted(carries, key=lambda l: l.dig))}
        for l, c in wk.items():
            if l in INT or (is_int(st0.store[l])):
                INT.add(c)
            if l in MAT:
                MAT.add(c)

        st_b = self.stable.get(self.depth(), ())
        mod2 = [m for m in mod if not (m.op == "i" and m.args[0] in st_b)]

        cvls = self.cvls = {}

        def enter():
            self.cvls = cvls
            self.st = State(dict(st0.store), T)
            for k in list(self.st.store):
                if k not in wk and any(self.touch(k, m) for m in mod2):
                    if not is_local(k):
                        del self.st.store[k]
                    elif k.op != "l" and root(k) not in mod:
                        self.st.store[k] = cvls[k] = mk("cvl", self.depth(), k)
                    elif k.op == "l":
                        c = self.st.store[k] = cvls[k] = mk("cvl", self.depth(), k)
                        SAMELEN.pop(c, None)
                        SAMEFLD.pop(c, None)
                        if all(m.op == "i" and m.args[0] is k for m in mod2 if self.touch(k, m)) and not contains(st0.store[k], lambda x: x is c):
                            SAMELEN[c] = st0.store[k]
                            SAMEFLD[c] = st0.store[k]
            for l, c in wk.items():
                for u in self.under(self.st.store, l):
                    del self.st.store[u]
                self.st.store[l] = c
        induct = {}
        if wk:
            ends = self.dry_end(lambda: (enter(), body_once(self, cond, body, inc, line)), list(wk))
            if ends is not None:
                cvs = set(wk.values())
                for l, c in wk.items():
                    d = sub(ends[l], c)
                    if d is not ZERO and not contains(d, lambda x: x in cvs or x is L or x.op in ("cvl", "havoc")) and self.loopinv(d, mod):
                        induct[l] = d
                    elif d is ZERO:
                        induct[l] = ZERO
        sub_ind = {wk[l]: add(st0.store[l], mul(d, L)) for l, d in induct.items()}
        rest = [l for l in wk if l not in induct]
        muls = {}
        if rest and ends is not None:
            es = {l: subst(ends[l], lambda x: sub_ind.get(x)) for l in rest}
            others = {wk[l] for l in rest}
            for l in rest:
                ap = appended(es[l], wk[l])
                if ap is not None and not contains(ap, lambda x: x in others or x.op in ("cvl",)):
                    muls[l] = ("app", ap)
                    continue
                d = idiff(es[l], wk[l])
                if not contains(d, lambda x: x in others or x.op in ("cvl",)):
                    muls[l] = ("sum", d)
            mu_rest = [l for l in rest if l not in muls]
            if mu_rest:
                # each variable together with those it depends on
                rest_of = {wk[l]: l for l in mu_rest}
                dep = {l: {rest_of[x] for x in subterms(es[l]) if x in rest_of} for l in mu_rest}
                for m in mu_rest:
                    grp, todo = {m}, [m]
                    while todo:
                        for x in dep[todo.pop()]:
                            if x not in grp:
                                grp.add(x)
                                todo.append(x)
                    order = sorted(grp, key=lambda l: st0.store[l].dig)
                    ren = {wk[l]: mk("self", k, self.depth()) for k, l in enumerate(order)}
                    defs = tuple((st0.store[l], subst(es[l], lambda x: ren.get(x))) for l in order)
                    muls[m] = ("mu", mkmu(order.index(m), bindvar(defs, self.depth()), self.depth()))
        return wk, ends, induct, muls, enter, sub_ind

    def loopinv(self, d, mod):
        return not any(x in mod for x in subterms(d))

    @staticmethod
    def isunder(k, m):
        while k.op in ("f", "i"):
            k = k.args[0]
            if k is m:
                return True
        return False

    def dry_begin(self):
        sv = (self.st.copy(), self.fx, list(self.base), list(self.loops), list(self.lctl), self.modset, [list(f.rets) for f in self.frames], [dict(f.env) for f in self.frames], self.uid)
        self.fx = []
        self.dry += 1
        return sv

    def dry_done(self, sv):
        self.st, self.fx, self.base, self.loops, self.lctl, self.modset, rets, envs, self.uid = sv
        for f, r, e in zip(self.frames, rets, envs):
            f.rets = r
            f.env = e
        self.dry -= 1

    def dry_mod(self, f):
        sv = self.dry_begin()
        self.modset = set()
        m = set()
        try:
            self.st.live = T
            f()
            m = set(self.modset)
        finally:
            outer = sv[5]
            self.dry_done(sv)
            if outer is not None:
                outer |= m
        return m

    def dry_end(self, f, locs):
        sv = self.dry_begin()
        try:
            f()
            if self.st.live == F:
                return {l: self.read(l) for l in locs}
            return {l: self.read(l) for l in locs}
        finally:
            self.dry_done(sv)

    def dry_exits(self, f, enter_state):
        sv = self.dry_begin()
        try:
            self.st = State(dict(enter_state.store), T)
            return f()
        finally:
            self.dry_done(sv)

    def dry_postcond(self, body, cond):
        sv = self.dry_begin()
        try:
            self.st = State(dict(self.st.store), T)
            ctl = {"kind": "loop", "brk": [], "cont": [], "ret": [], "basemark": len(self.base), "frame": self.frames[-1]}
            self.lctl.append(ctl)
            self.loops.append(mk("dry"))
            body()
            self.join_cont(ctl)
            self.lctl.pop()
            c = cond() if self.st.live != F else F
            return bor(bnot(c), *[g for g, _ in ctl["brk"]])
        finally:
            self.dry_done(sv)

    def try_unroll(self, cond, body, inc, line):
        sv = self.dry_begin()
        n = 0
        ok = False
        try:
            c = cond()
            while c == T and n <= self.UNROLL:
                # advance only the header variables: needs the body too (it may change them)
                ctl = {"kind": "loop", "brk": [], "cont": [], "ret": [], "basemark": len(self.base), "frame": self.frames[-1]}
                self.lctl.append(ctl)
                body()
                self.lctl.pop()
                self.join_cont(ctl)
                if self.st.live == F:
                    n = self.UNROLL + 5
                    break
                inc()
                n += 1
                c = cond()
            ok = c == F and n <= self.UNROLL
        finally:
            self.dry_done(sv)
        if not ok:
            return False
        ctl = {"kind": "loop", "brk": [], "cont": [], "ret": [], "basemark": len(self.base), "frame": self.frames[-1]}
        self.lctl.append(ctl)
        cond()
        for _ in range(n):
            if self.st.live == F:
                break
            body()
            self.join_cont(ctl)
            inc()
            cond()
        self.lctl.pop()
        self.join_brk(ctl)
        if ctl["ret"] and self.lctl and self.lctl[-1].get("frame") is self.frames[-1]:
            self.lctl[-1]["ret"] += ctl["ret"]
        return True

    def count_loop(self, n, bind, body, line):
        """loop with a known count: bind(index term)"""
        L = mk("L", self.depth())
        if is_num(n) and 0 <= n.args[0] <= self.UNROLL:
            self.unrolled([lambda k=k: bind(num(k)) for k in range(int(n.args[0]))], body, line)
            return
        self.uid += 1
        cl = mk("l", "#", self.uid)
        INT.add(cl)
        self.st.store[cl] = ZERO

        def full_body():
            bind(self.st.store.get(cl, L))
            body()
        self.loop(lambda: lt(self.st.store[cl], n) if not is_num(n) or True else T, full_body,
                  lambda: self.st.store.__setitem__(cl, add(self.st.store[cl], ONE)) or (self.modset.add(cl) if self.modset is not None else None), line)

    # ---------------------------------------------------------------- expressions
    def val(self, e, line=0):
        if e is None:
            return mk("none")
        m = getattr(self, "e_" + e[0], None)
        if m is None:
            self.unknown.append((self.file, line, e[0]))
            return mk("unk", e[0])
        return m(e)

    def loc(self, e):
        """location denoted by an lvalue expression (or its value when it is not one)"""
        k = e[0]
        if k == "var":
            return self.varloc(e)
        if k == "this":
            return self.frames[-1].this
        if k == "fld":
            b = self.loc(e[1])
            b = self.deref(b)
            if b is THIS and e[2] in self.scratch:
                return self.tagterm(mk("l", "$" + e[2], 0), e[4] if len(e) > 4 else "")
            r = fieldof(b, e[2])
            return self.tagterm(r, e[4] if len(e) > 4 else "")
        if k == "idx":
            b = self.loc(e[1])
            if not (b.op == "l" and b in self.st.store and self.st.store[b].op == "addr"):
                b = self.deref(b)
            return self.ptr_index(b, self.val(e[2]))
        if k == "un" and e[1] == "*":
            if e[2] and e[2][0] == "this":
                return self.deref(self.frames[-1].this)
            v = self.val(e[2])
            return self.ptr_deref(v)
        if k == "asg":
            self.val(e)
            return self.loc(e[2])
        if k == "cond":
            c = truth(self.val(e[1]))
            return ite(c, self.loc(e[2]), self.loc(e[3]))
        if k == "ctor" and strip_t(e[1]) == "Eigen::Map":
            m = self.map_loc(e, [self.val(a) for a in e[2]])
            if m is not None:
                return m
        if k == "ctor" and e[2] and strip_t(e[1]) in ("Eigen::Ref", "Eigen::VectorBlock", "Eigen::Block"):
            return self.loc(e[2][0])
        if k == "call":
            return self.call(e, want_loc=True)
        if k == "bin" and e[1] == ",":
            self.val(e[2])
            return self.loc(e[3])
        return self.val(e)

    def deref(self, b):
        """a local that holds a pointer/reference to another location"""
        if b.op == "l":
            v = self.st.store.get(b)
            if v is not None and v.op in ("f", "i", "sym", "this", "deref", "addr", "c", "ptr"):
                if v.op == "addr":
                    return v.args[0]
                if v.op == "sym" or v.op == "ptr" or v.op in ("f", "i", "this", "c"):
                    if b in PTRS:
                        return v
        elif b.op == "f":                 # a pointer member that was given an object in this function
            v = self.st.store.get(b)
            if v is not None and (v.op == "addr" or v.op == "sym" and v in PTRS):
                return v.args[0] if v.op == "addr" else v
        return b

    def ptr_index(self, b, i):
        v = self.read(b) if b.op == "l" else b
        if v.op == "addr":
            v = v.args[0]
            if v.op == "i" and len(v.args[1]) == 1:
                return index(v.args[0], (add(v.args[1][0], i),))
            if i is ZERO:
                return v
            return mk("i", v, (i,))
        if b.op == "l" and v.op in ("sym", "f", "i", "c", "+"):
            if v.op == "+":
                bs, off = ptr_split(v)
                if bs is not None:
                    return index(bs, (add(off, i),))
            else:
                return index(v, (i,))
        if b.op == "+":
            bs, off = ptr_split(b)
            if bs is not None:
                return index(bs, (add(off, i),))
        return index(b, (i,))

    def ptr_deref(self, v):
        if v.op == "addr":
            return v.args[0]
        if v.op == "+":
            bs, off = ptr_split(v)
            if bs is not None:
                return index(bs, (off,))
        if v.op in ("this",):
            return v
        if v.op in ("sym", "f", "i", "l"):
            return index(v, (ZERO,)) if v in PTRS else mk("deref", v)
        return mk("deref", v)

    def varloc(self, e):
        _, name, vid, scope = e[:4]
        tag = e[4] if len(e) > 4 else ""
        for fr in (self.frames[-1],):
            if vid in fr.env:
                l = fr.env[vid]
                if tag == "p":
                    PTRS.add(l)
                    v = self.st.store.get(l)
                    if v is not None:
                        PTRS.add(v)
                return l
        # captured by a lambda: search outer frames
        for fr in reversed(self.frames[:-1]):
            if vid in fr.env:
                return fr.env[vid]
        if len(e) > 5 and scope == "global":
            return self.val(e[5])
        t = mk("sym", name)
        return self.tagterm(t, tag)

    def e_var(self, e):
        l = self.varloc(e)
        if l.op in ("l", "f", "i", "sym", "this"):
            v = self.read(l)
            tag = e[4] if len(e) > 4 else ""
            return self.tagterm(v, tag) if v.op != "n" else v
        return l

    def e_fld(self, e):
        l = self.loc(e)
        v = self.read(l)
        if len(e) > 4:
            self.tagterm(v, e[4])
        return v

    def e_this(self, e):
        return self.frames[-1].this

    def e_num(self, e):
        from fractions import Fraction
        try:
            return num(Fraction(e[1]))
        except ValueError:
            return mk("sym", e[1])

    def e_str(self, e):
        return mk("str", e[1])

    def e_bool(self, e):
        return boolt(T if e[1] else F)

    def e_null(self, e):
        return mk("none")

    def e_enum(self, e):
        return mk("enum", e[1])

    def e_fnref(self, e):
        if len(e) > 3:
            return mk("bound", e[1], self.val(e[3]))
        return mk("fn", e[1])

    def e_fieldref(self, e):
        return mk("fn", e[1])

    def e_cast(self, e):
        v = self.val(e[2])
        if e[1] == "i":
            if is_num(v):
                import math
                return num(math.trunc(v.args[0]))
            if is_int(v):
                return v
            r = mk("floor", v)
            return r
        return v

    def e_sizeof(self, e):
        return mk("sizeof", e[1])

    def e_throw(self, e):
        self.s_throw(["throw", e[1], e[2]])
        return mk("none")

    def e_init(self, e):
        vs = tuple(self.val(x) for x in e[1])
        return mk("list", vs)

    def e_cond(self, e):
        c = truth(self.val(e[1]))
        if c == T:
            return self.val(e[2])
        if c == F:
            return self.val(e[3])
        r = [None, None]

        def a():
            r[0] = self.val(e[2])

        def b():
            r[1] = self.val(e[3])
        self.branch(c, a, b)
        return ite(c, r[0], r[1])

    def e_idx(self, e):
        return self.read(self.loc(e))

    def e_unk(self, e):
        if e[1] == "SourceLocExpr":     # the place where an assertion is written
            return mk("str", "")
        self.unknown.append((self.file, 0, e[1]))
        return mk("unk", e[1], tuple(self.val(x) for x in e[2]) if len(e) > 2 else ())

    def e_lambda(self, e):
        self.uid += 1
        k = "lambda@%d" % id(e)
        LAMS[k] = (e, list(self.frames))
        return mk("lam", k)

    def e_new(self, e):
        n = self.val(e[2]) if e[2] is not None else None
        ini = self.val(e[3]) if e[3] is not None else None
        return mk("new", e[1], *( [n] if n is not None else []), *([ini] if ini is not None else []))

    def e_delete(self, e):
        self.emit("call", mk("str", "delete"), self.val(e[1]), e[2])
        return mk("none")

    def e_un(self, e):
        op = e[1]
        if op == "*":
            return self.read(self.loc(e))
        if op == "&":
            if e[2][0] == "fnref":
                return self.val(e[2])
            l = self.loc(e[2])
            return mk("addr", l) if l.op not in ("c", "this") else l
        v = self.val(e[2])
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return boolt(bnot(truth(v)))
        return mk("c", "op" + op, None, (v,))

    def e_bin(self, e):
        _, op, ea, eb = e[:4]
        tag = e[4] if len(e) > 4 else ""
        if op == "&&":
            a = truth(self.val(ea))
            if a == F:
                return boolt(F)
            r = [F]
            if has_effect(eb):
                self.branch(a, lambda: r.__setitem__(0, truth(self.val(eb))), lambda: None)
            else:
                r[0] = truth(self.val(eb))
            return boolt(band(a, r[0]))
        if op == "||":
            a = truth(self.val(ea))
            if a == T:
                return boolt(T)
            r = [F]
            if has_effect(eb):
                self.branch(a, lambda: None, lambda: r.__setitem__(0, truth(self.val(eb))))
            else:
                r[0] = truth(self.val(eb))
            return boolt(bor(a, r[0]))
        if op == ",":
            self.val(ea)
            return self.val(eb)
        a, b = self.val(ea), self.val(eb)
        return binop(op, a, b, tag)

    def e_asg(self, e):
        _, op, el, er, tag, line = e[:6]
        post = len(e) > 6 and e[6] == "post"
        if op == "=":
            v = self.val(er)
            l = self.loc(el)
            self.tagterm(v, tag)
            self.write(l, v, line)
            return v
        l = self.loc(el)
        r = self.val(er)
        old = self.read(l)
        if tag == "b" and op in ("|=", "&="):
            v = boolt(bor(truth(old), truth(r)) if op == "|=" else band(truth(old), truth(r)))
        else:
            v = binop(op[:-1], old, r, tag)
        if tag == "i" and not is_num(v):
            INT.add(v) if v.op not in ("+",) else None
        self.write(l, v, line)
        return old if post else v

    # ---------------------------------------------------------------- calls
    def e_dcall(self, e):
        return mk("c", "op" + e[1], None, tuple(self.val(x) for x in e[2]))

    def e_icall(self, e):
        f = self.val(e[1])
        args = [self.val(x) for x in e[2]]
        if f.op == "lam":
            return self.call_lambda(f, e[2])
        t = mk("c", "icall", f, tuple(args))
        self.emit("call", f, t, e[4] if len(e) > 4 else 0)
        return t

    def call_lambda(self, f, argexprs):
        e, frs = LAMS[f.args[0]]
        fn = {"name": "lambda", "file": self.file, "retref": "", "params": e[1]}
        fr = Frame(fn, self.frames[-1].this)
        for f0 in frs:
            fr.env.update(f0.env)
        for p, x in zip(e[1], argexprs):
            if "&" in p[3]:
                fr.env[p[1]] = self.loc(x)
            else:
                self.uid += 1
                l = mk("l", p[0], self.uid)
                fr.env[p[1]] = l
                self.st.store[l] = self.val(x)
        return self.enter(fr, e[2])

    def enter(self, fr, body, inits=None):
        if len(self.frames) > self.MAXDEPTH:
            raise Giveup("inlining too deep")
        live0 = self.st.live
        self.base.append(live0)
        fr.basemark = len(self.base)
        self.st = State(self.st.store, T)
        self.frames.append(fr)
        ofile = self.file
        self.file = fr.fn.get("file", ofile)
        if inits:
            inits()
        self.block(body)
        self.file = ofile
        self.frames.pop()
        self.base.pop()
        rets = fr.rets
        # stores at return points: the block merged only the fall-through path; rebuild
        lv = self.st.live
        ok = bor(lv, *[g for g, _ in rets]) if rets else lv
        if rets:
            store = self.st.store if lv != F else None
            for (g, v), s in reversed(list(zip(rets, fr.retstores))):
                store = s if store is None else self.merge(g, s, store)
            self.st.store = store
        self.st.live = band(live0, ok) if ok != T else live0
        rv = None
        for g, v in reversed(rets):
            if v is None:
                continue
            rv = v if rv is None else ite(g, v, rv)
        return rv if rv is not None else mk("none")

    def inline(self, fn, this, argexprs, want_loc, key):
        fr = Frame(fn, this)
        fr.retstores = []
        binds = []
        for p, x in zip(fn["params"], argexprs):
            name, pid, tag, ref = p[0], p[1], p[2], p[3]
            if ref == "r" or reflike(p[4]):
                binds.append((pid, self.loc(x), None, name, tag))
            elif ref == "k":
                l = self.loc(x) if x[0] in ("var", "fld", "idx", "call") or (x[0] == "un" and x[1] == "*") else self.val(x)
                binds.append((pid, l, None, name, tag))
            else:
                binds.append((pid, None, self.val(x), name, tag))
        for pid, l, v, name, tag in binds:
            if l is not None:
                fr.env[pid] = l
                self.tagterm(l, tag)
            else:
                self.uid += 1
                ll = mk("l", name, self.uid)
                self.tagterm(ll, tag)
                self.tagterm(v, tag)
                fr.env[pid] = ll
                self.st.store[ll] = v
        self.stack.append(key)
        self.inlined.add(key)
        inits = None
        if fn.get("inits"):
            def inits():
                for f, e, w in fn["inits"]:
                    if f != "<base>":
                        self.write(mk("f", this, f), self.val(e), fn["line"])
        r = self.enter(fr, fn["body"], inits)
        self.stack.pop()
        if want_loc or r.op not in ("l", "f", "i"):
            return r
        return self.read(r)

    def call(self, e, want_loc=False):
        _, q, recv, args, tag, key, line, fl, targs, pm = e
        qs = strip_t(q)
        h = self.handlers.get(qs)
        if h is not None:
            r = h(self, e, qs)
            if r is not NotImplemented:
                return self.tagterm(r, tag) if isinstance(r, Term) else mk("none")
        if self.ignore(qs):
            return mk("none")
        cls, _, name = qs.rpartition("::")
        r = self.intrinsic(e, qs, cls, name, want_loc)
        if r is not None:
            if r.op not in ("n",):
                self.tagterm(r, tag)
            return r
        fn = self.prog.fns.get(key) if self.prog is not None else None
        if fn is not None and not self.opaque(qs, key) and "v" not in fl and self.inline_ok(qs) and self.stack.count(key) < 1 and len(self.frames) < self.MAXDEPTH:
            this = self.deref(self.loc(recv)) if recv is not None else None
            if this is not None and this.op == "addr":
                this = this.args[0]
            r = self.inline(fn, this if this is not None else self.frames[-1].this, args, want_loc, key)
            return self.tagterm(r, tag)
        return self.opaque_call(e, qs, want_loc)

    def opaque_call(self, e, qs, want_loc=False):
        _, q, recv, args, tag, key, line, fl, targs, pm = e
        rl = None
        if recv is not None:
            rl = self.deref(self.loc(recv))
            if rl.op == "addr":
                rl = rl.args[0]
        mutable = recv is not None and "c" not in fl and "s" not in fl
        avs = []
        outs = []
        for i, a in enumerate(args):
            if i < len(pm) and pm[i] == "m":
                l = self.loc(a)
                if l.op == "addr":
                    l = l.args[0]
                elif l.op == "f" and self.st.store.get(l) in PTRS and self.st.store[l].op == "sym":
                    l = self.st.store[l]        # a pointer member that holds the pointer the caller passed
                outs.append(l)
                avs.append(mk("out", self.canon_out(l)))
            else:
                avs.append(self.val(a))
        rv = rl
        if rl is not None and (rl.op == "l" or not mutable):
            rv = self.read(rl)
        while rv is not None and rv.op == "deref" and len(rv.args) == 1:
            rv = rv.args[0]
        t = mk("c", qs, rv if rv is not None else mk("none"), tuple(avs))
        self.tagterm(t, tag)
        self.__dict__.setdefault("callkeys", {})[t] = (key, mutable)
        if mutable or outs or (recv is None and tag == "v"):
            self.emit("call", rv, t, line, extra=tuple(outs))
            ms = self.modified_by(key) if (self.modsets(qs) if callable(self.modsets) else self.modsets) and mutable and rl is not None and rl.op != "l" else None
            if mutable and rl is not None:
                if ms is None:
                    self.havoc(rl, t)
                else:
                    for path in ms:
                        l = rl
                        for n in path:
                            l = fieldof(l, n) if l.op != "f" and l is not THIS else mk("f", l, n)
                        self.havoc(l, t)
            for o in outs:
                self.havoc(o, t)
        return t

    def modified_by(self, key):
        """field paths of the receiver a member function may change; None if unknown"""
        memo = self.prog.__dict__.setdefault("modmemo", {})
        if key in memo:
            return memo[key]
        memo[key] = None
        fn = self.prog.fns.get(key)
        if fn is None or fn.get("body") is None:
            return None
        keep = (list(CURDOM), self.prog)
        try:
            S = type(self)(self.prog, opaque=self.opaque, modsets=self.modsets, handlers=self.handlers, linexpr=(), arith=self.arith, ignore=self.ignore, unroll=0)
            fx = S.run(fn, {p[0]: mk("sym", "p%d" % i) for i, p in enumerate(fn["params"])})
            out = set()
            ok = not S.unknown
            for e in fx:
                if e.kind == "ret":
                    continue
                locs = [e.target] if e.kind != "call" else list(e.extra or ())
                if e.kind == "call":
                    ck, mut = S.__dict__.get("callkeys", {}).get(e.value, (None, True))
                    if e.target is THIS and ck is not None:
                        if mut:
                            sub_ = self.modified_by(ck) if ck != key else []
                            if sub_ is None:
                                ok = False
                            else:
                                out.update(sub_)
                    elif e.target is not None:
                        locs.append(e.target)
                for l in locs:
                    if l is None:
                        continue
                    names = []
                    while l.op in ("f", "i", "deref", "addr", "updf", "upd"):
                        if l.op == "f":
                            names.append(l.args[1])
                        elif l.op == "i":
                            names = []
                        l = l.args[0]
                    if l is THIS:
                        if not names:
                            ok = False
                        out.add(tuple(names[::-1]))
                    elif l.op not in ("sym", "l"):
                        ok = False
            memo[key] = sorted(out) if ok else None
        except (Giveup, RecursionError):
            pass
        CURDOM[:] = keep[0]
        return memo[key]

    def canon_out(self, l):
        if is_local(l):
            return self.read(l)
        return l

    def e_call(self, e):
        r = self.call(e)
        return self.read(r) if r.op in ("l", "f", "i") else r

    def e_ctor(self, e):
        _, cls, args, tag, key, line, ty = e
        qs = strip_t(cls)
        h = self.handlers.get(qs + "::ctor")
        if h is not None:
            r = h(self, e, qs)
            if r is not NotImplemented:
                return r
        vs = [self.val(a) for a in args]
        if qs.endswith("::InnerIterator") and len(vs) == 2:
            m = self.loc(args[0])
            INT.add(vs[1])
            return mk("updf", mk("undef", "InnerIterator"), (("$m", m), ("$o", vs[1]), ("$k", ZERO)))
        if qs == "Eigen::Map":
            m = self.map_loc(e, vs)
            if m is not None:
                return self.read(m)
        if tag.startswith("M:") or "Eigen" in cls:
            if not vs:
                return mk("undef", ty)
            if len(vs) == 1 and args[0] and not (is_num(vs[0]) and False):
                # converting constructor from an expression / or size constructor
                if SIZECTOR.search(key):
                    return mk("undef", ty, vs[0])
                if is_mat(vs[0]) or vs[0].op in ("c", "f", "sym", "ite"):
                    return vs[0]
                if vs[0] is ZERO or vs[0].op == "+":
                    return vs[0]
                return mk("undef", ty, vs[0])
            if len(vs) == 2 and re.search(r"Matrix<double, -1, -1", ty) and SIZES.search(key):
                return mk("undef", ty, tuple(vs))
            if len(vs) >= 2 and re.search(r"Matrix<double, [2-9], 1", ty):
                r = mk("vec", tuple(vs))
                return r
            if "Quaternion" in cls and len(vs) == 4:
                return mk("quat", *vs)
            if qs == "Eigen::Ref" and len(vs) == 2:
                return vs[0]
            return mk("ctor", qs, tuple(vs))
        if qs in ("std::basic_string", "std::__cxx11::basic_string"):
            return vs[0] if vs else mk("str", "")
        if qs in ("std::shared_ptr", "std::unique_ptr") and len(vs) == 1:
            return vs[0]
        if qs.startswith("std::") and len(vs) == 1 and vs[0].op in ("list",) and "vector" in qs:
            return vs[0]
        if qs.startswith("std::vector") and not vs:
            return mk("list", ())
        return mk("ctor", qs, tuple(vs))

    def map_loc(self, e, vs):
        """the vector a Map addresses"""
        ty = e[6]
        if len(vs) not in (2, 3) or not re.search(r"Matrix<[\w ]+, -?\d+, 1[,>]", ty):
            return None
        p = vs[0]
        if p.op == "+":
            b, off = ptr_split(p)
            if b is None:
                return None
        elif p.op == "addr":
            b, off = p.args[0], ZERO
            if b.op == "i" and len(b.args[1]) == 1:
                b, off = b.args[0], b.args[1][0]
        elif p in PTRS:
            b, off = p, ZERO
        else:
            return None
        MAT.add(b)
        r = index(b, (mk("sl", off, vs[1]),))
        MAT.add(r)
        return r

    # library knowledge -----------------------------------------------------------
    def intrinsic(self, e, qs, cls, name, want_loc):
        _, q, recv, args, tag, key, line, fl, targs, pm = e
        if "basic_ostream" in q or "ostream" in cls or (tag.startswith("o:std::basic_ostream")):
            return mk("none")
        eig = cls.startswith("Eigen") or qs.startswith("Eigen::")
        if recv is None and not eig:
            if name in MATHFN or (cls in ("", "std") and name in MATHFN):
                return fun(MATHFN[name], *[self.val(a) for a in args])
            if name == "pow" and len(args) == 2:
                return power(self.val(args[0]), self.val(args[1]))
            if qs in ("std::max", "std::min", "fmax", "fmin", "std::fmax", "std::fmin") and len(args) == 2:
                return fun(name[-3:], *[self.val(a) for a in args])
            if qs in ("std::move", "std::forward"):
                return self.loc(args[0])
            if qs in ("std::make_shared", "std::make_unique", "boost::make_shared"):
                return mk("new", targs[0] if targs else "", *[self.val(a) for a in args])
            if qs == "std::to_string":
                return mk("tostr", self.val(args[0]))
            if name in ("operator==", "operator!=") and len(args) == 2 and cls in ("std", ""):
                f = eq(self.val(args[0]), self.val(args[1]))
                return boolt(f if name == "operator==" else bnot(f))
            if qs == "std::operator+":
                return strcat(self.val(args[0]), self.val(args[1]))
            if name == "isnan":
                return boolt(bvar(mk("isnan", self.val(args[0]))))
        if cls in PTRCLS or cls.startswith("std::__shared_ptr"):
            if name in ("operator->", "operator*", "get"):
                l = self.loc(recv)
                v = self.read(l)
                return v if l.op == "l" else l
            if name in ("operator bool",):
                return self.read(self.loc(recv))
            if name == "operator=" or name == "reset":
                l = self.loc(recv)
                self.write(l, self.val(args[0]) if args else mk("none"), line)
                return l
            if name in ("operator==", "operator!="):
                f = eq(self.val(recv), self.val(args[0]))
                return boolt(f if name == "operator==" else bnot(f))
        if cls in VECCLS:
            r = self.vector(e, cls, name, want_loc)
            if r is not None:
                return r
        if cls in ("std::basic_string", "std::__cxx11::basic_string"):
            if name == "c_str" or name == "data":
                return self.val(recv)
            if name == "compare" and len(args) == 1:
                # compare()==0 <=> equal
                return ite(eq(self.val(recv), self.val(args[0])), ZERO, ONE)
            if name == "operator=":
                l = self.loc(recv)
                self.write(l, self.val(args[0]), line)
                return l
            if name == "operator+=" or name == "append":
                l = self.loc(recv)
                self.write(l, strcat(self.read(l), self.val(args[0])), line)
                return l
            if name == "empty":
                return boolt(eq(self.val(recv), mk("str", "")))
        if qs in ("std::numeric_limits::max", "std::numeric_limits::infinity", "std::numeric_limits::min", "std::numeric_limits::epsilon", "std::numeric_limits::lowest"):
            return mk("sym", "limits::" + name + ":" + tag)
        if eig:
            return self.eigen(e, cls, name, want_loc)
        if name.startswith("operator") and self.arith and self.is_arith(e, cls):
            return self.arith_op(e, name)
        if name == "operator=" and recv is not None and self.prog is not None and key not in self.prog.fns:
            l = self.loc(recv)
            v = self.val(args[0])
            self.write(l, v, line)
            return l
        return None

    def is_arith(self, e, cls):
        k = e[5]
        if "(" in k and any(x and not any(w in x for w in self.arith) and x.replace("const", "").replace("&", "").strip() not in ("double", "int", "float", "long", "unsigned int") for x in k.split("(", 1)[1].rsplit(")", 1)[0].split(",")):
            return False                  # an operand that has to be converted first: the body says how
        return any(a + "::" in k or ("(" in k and a in k.split("(", 1)[1]) for a in self.arith) and e[1].rsplit("::", 1)[-1].replace("operator", "") in ("+", "-", "*", "/", "+=", "-=", "*=", "/=", "=")

    def arith_op(self, e, name):
        _, q, recv, args, tag, key, line, fl, targs, pm = e
        op = name.replace("operator", "")
        if op in ("+=", "-=", "*=", "/=", "="):
            l = self.loc(recv)
            r = self.val(args[0])
            v = r if op == "=" else binop(op[0], self.read(l), r, "f")
            self.write(l, v, line)
            return l
        vs = ([self.val(recv)] if recv is not None else []) + [self.val(a) for a in args]
        if len(vs) == 1:
            return neg(vs[0]) if op == "-" else vs[0]
        return binop(op, vs[0], vs[1], "f")

    def vector(self, e, cls, name, want_loc):
        _, q, recv, args, tag, key, line, fl, targs, pm = e
        if recv is None:
            return None
        l = self.loc(recv)
        if l.op == "addr":
            l = l.args[0]
        if name in ("operator[]", "at"):
            i = self.val(args[0])
            r = index(l, (i,))
            if is_local(l) and l.op == "l":
                v = self.read(l)
                if v.op in ("f", "i", "sym"):
                    pass
            return r if want_loc else self.read(r)
        if name == "size":
            v = self.read(l)
            if v.op == "list":
                return num(len(v.args[0]))
            return length(v)
        if name == "empty":
            v = self.read(l)
            return boolt(eq(mk("len", v), ZERO) if v.op != "list" else (T if not v.args[0] else F))
        if name == "front":
            return index(l, (ZERO,))
        if name == "back":
            v = self.read(l)
            if v.op == "list" and v.args[0]:
                return v.args[0][-1]
            return index(l, (sub(mk("len", v), ONE),))
        if name in ("push_back", "emplace_back"):
            v = self.val(args[0]) if args else mk("none")
            if is_local(l):
                cur = self.read(l)
                if cur.op == "list" and not self.loops_since(l):
                    self.write(l, mk("list", cur.args[0] + (v,)), line)
                else:
                    self.write(l, mk("append", cur, v), line)
                return mk("none")
            z = self.sized(args[0]) if args else None
            if z is not None:
                v = mk("sized", v, z)
            self.emit("push", l, v, line)
            self.havoc(l, mk("c", "push_back", l, (v,)))
            return mk("none")
        if name in ("clear", "resize", "reserve", "assign", "pop_back", "insert", "erase", "swap"):
            vs = tuple(self.val(a) for a in args)
            if name == "reserve":
                return mk("none")
            if is_local(l):
                self.write(l, mk("list", ()) if name == "clear" else mk("c", name, self.read(l), vs), line)
                return mk("none")
            self.emit(name, l, mk("list", vs), line)
            self.havoc(l, mk("c", name, l, vs))
            return mk("none")
        if name == "operator=":
            self.write(l, self.val(args[0]), line)
            return l
        if name in ("begin", "end", "cbegin", "cend"):
            return mk("iter", self.read(l), ZERO if name.endswith("begin") else mk("len", self.read(l)))
        if name == "data":
            return mk("addr", index(l, (ZERO,)))
        return None

    def loops_since(self, l):
        # conservative: a local list declared outside the current loop is not tracked item-wise
        return bool(self.loops) and self.dry >= 0 and any(True for _ in self.loops) and not self.declared_here(l)

    def declared_here(self, l):
        return getattr(self, "_decl_depth", {}).get(l, 0) >= len(self.loops)

    # Eigen ---------------------------------------------------------------------
    def sparse_iter(self, recv, name, line, want_loc):
        """iterator over the stored entries of one column"""
        l = self.loc(recv)
        v = self.read(l)
        get = lambda n: self.read(mk("f", l, n)) if l.op in ("l", "f") else fieldof(v, n)
        m, o, k = get("$m"), get("$o"), get("$k")
        INT.add(k)
        if name == "operator++":
            self.write(mk("f", l, "$k"), add(k, ONE), line)
            return l
        if name == "operator bool":
            n = mk("spn", m, o)
            INT.add(n)
            return boolt(lt(k, n))
        if name in ("value", "valueRef"):
            vm = fieldof(m, "$nz")
            MAT.add(vm)
            r = index(vm, (o, k))
            return r if want_loc or name == "valueRef" else self.read(r)
        if name in ("row", "index"):
            r = mk("sprow", m, o, k)
            INT.add(r)
            SCAL.add(r)
            return r
        if name in ("col", "outer"):
            return o
        return None

    def sized(self, e):
        """sizes of an expression like Zero(n, m)"""
        while isinstance(e, list) and e and e[0] == "ctor" and len(e[2]) == 1:
            e = e[2][0]
        if isinstance(e, list) and e and e[0] == "call" and e[2] is None and e[1].split("::")[-1] in ("Zero", "Ones", "Constant", "Identity"):
            n = [self.val(a) for a in e[3]]
            if e[1].endswith("Constant"):
                n = n[:-1]
            if len(n) == 2 and n[1] is ONE:
                n = n[:1]
            return tuple(n) or None
        return None

    def eigen(self, e, cls, name, want_loc):
        _, q, recv, args, tag, key, line, fl, targs, pm = e
        if cls.endswith("InnerIterator") and recv is not None:
            r = self.sparse_iter(recv, name, line, want_loc)
            if r is not None:
                return r
        L_ = lambda: self.loc(recv)

        def rv():
            l = self.loc(recv)
            v = self.read(l) if l.op in ("l", "f", "i", "sym") else l
            if not is_num(v) and ("M:" in tag or True):
                if v.op in ("f", "i", "sym", "c", "l", "after", "undef", "ctor", "final", "looped", "cv", "self", "mu"):
                    MAT.add(v)
            return v
        A = lambda k: self.val(args[k])
        ti = [t for t in targs if isinstance(t, int)]

        def sl(s, n):
            return mk("sl", s, n)

        def sub_(idx):
            l = L_()
            if l.op in ("l", "f", "i", "sym"):
                MAT.add(l)
                r = self.whole(index(l, idx))
                return r if want_loc else self.read(r)
            return index(l, idx)
        if name in ("operator()", "operator[]", "coeff", "coeffRef"):
            if recv is None:
                return None
            return sub_(tuple(A(k) for k in range(len(args))))
        if name in ("x", "y", "z", "w") and not args and recv is not None:
            return sub_((num("xyzw".index(name)),)) if "Quaternion" not in cls else sub_((num("xyzw".index(name)),))
        if name == "head":
            return sub_((sl(ZERO, num(ti[0]) if not args else A(0)),))
        if name == "tail":
            n = num(ti[0]) if not args else A(0)
            sz = self.static_size(recv)
            return sub_((sl(sub(sz, n) if sz is not None else sub(length(rv()), n), n),))
        if name == "segment":
            return sub_((sl(A(0), num(ti[0]) if len(args) == 1 else A(1)),))
        if name == "block":
            if len(args) == 2:
                return sub_((sl(A(0), num(ti[0])), sl(A(1), num(ti[1]))))
            return sub_((sl(A(0), A(2)), sl(A(1), A(3))))
        if name in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            r, c = (num(ti[0]), num(ti[1])) if not args else (A(0), A(1))
            v = rv()
            ssz = self.static_shape(recv)
            rows = ssz[0] if ssz else mk("rows", v)
            cols = ssz[1] if ssz else mk("cols", v)
            r0 = ZERO if name.startswith("top") else sub(rows, r)
            c0 = ZERO if "Left" in name else sub(cols, c)
            return sub_((sl(r0, r), sl(c0, c)))
        if name in ("topRows", "bottomRows", "middleRows", "leftCols", "rightCols", "middleCols"):
            v = rv()
            if name.startswith("middle"):
                s = sl(A(0), A(1) if len(args) > 1 else num(ti[0]))
            else:
                n = A(0) if args else num(ti[0])
                ssz = self.static_shape(recv)
                tot = (ssz[0] if ssz else mk("rows", v)) if "Rows" in name else (ssz[1] if ssz else mk("cols", v))
                s = sl(ZERO if name in ("topRows", "leftCols") else sub(tot, n), n)
            return sub_((s, SLALL) if "Rows" in name else (SLALL, s))
        if name in ("col", "row") and not args:
            return mk("ef", name, rv(), (), ())
        if name == "col":
            return sub_((SLALL, A(0)))
        if name == "row":
            return sub_((A(0), SLALL))
        if name in ("noalias", "eval", "derived", "array", "matrix", "const_cast_derived", "selfadjointView", "nestedExpression", "matrixL", "cast", "ref", "topLeftCornerX"):
            if want_loc and name == "selfadjointView":
                return fieldof(self.loc(recv), "selfadjointView(%s)" % ",".join(map(str, ti)))
            if name == "selfadjointView" or name == "matrixL":
                return mk("c", name, rv(), tuple(ti and [num(t) for t in ti] or ()))
            return self.loc(recv) if want_loc else rv()
        if name == "finished":
            return self.loc(recv)
        if name == "indices" and "Permutation" in cls:
            l = self.loc(recv)
            r = fieldof(l, "indices()")
            MAT.add(r)
            return r if want_loc else (self.read(r) if r.op in ("f", "l") else r)
        if name in ("transpose", "adjoint"):
            return transpose(rv())
        if name == "conjugate":
            return mk("qconj", rv())
        if name == "inverse":
            v = rv()
            if "Quaternion" in cls:
                return mk("qconj", v)
            return mk("matinv", v)
        if name == "asDiagonal":
            return mk("diag", rv())
        if name in ("cwiseProduct",):
            return bilinear("cw", rv(), A(0), 1)
        if name in ("dot",):
            return bilinear("dot", rv(), A(0), 1)
        if name == "cross":
            return bilinear("cross", rv(), A(0), -1)
        if name == "squaredNorm":
            v = rv()
            return bilinear("dot", v, v, 1)
        if name == "norm":
            v = rv()
            return fun("sqrt", bilinear("dot", v, v, 1))
        if name in ("size", "rows", "cols", "sum", "prod", "minCoeff", "maxCoeff", "mean", "trace", "determinant", "allFinite", "hasNaN", "lpNorm", "cwiseAbs", "cwiseSqrt", "cwiseInverse", "cwiseMin", "cwiseMax", "abs", "sqrt", "square", "cwiseAbs2", "normalized", "diagonal", "toRotationMatrix", "matrixQ", "toDenseMatrix", "coeffs", "vec", "nonZeros", "isApprox", "any", "all", "count", "angularDistance", "colwise", "rowwise", "array"):
            v = rv()
            if name == "size" or name in ("rows", "cols"):
                ssz = self.static_shape(recv)
                if name == "size" and self.static_size(recv) is not None:
                    return self.static_size(recv)
                if ssz and name in ("rows", "cols"):
                    r = ssz[0 if name == "rows" else 1]
                    if r is not None:
                        return r
                if name == "size":
                    return length(v)
                r = mk(name, v)
                INT.add(r)
                return r
            if name == "vec" and "Quaternion" in cls:
                return index(v, (sl(ZERO, num(3)),))
            if name == "diagonal":
                if want_loc:
                    return fieldof(self.loc(recv), "diagonal()")
            if name in ("minCoeff", "maxCoeff", "sum") and args:
                return None
            if name == "sum":
                ssz = self.static_shape(recv)
                if not (ssz and all(x is not ONE for x in ssz)):
                    n = length(v)
                    if is_num(n) and n.args[0] <= 12:
                        return add(ZERO, *[index(v, (num(k),)) for k in range(int(n.args[0]))])
                    return mksum(n, index(v, (mk("L", 99),)), 99)

            return mk("ef", name, v, tuple(A(k) for k in range(len(args))), tuple(num(t) for t in ti))
        if name in ("setZero", "setOnes", "setIdentity", "setConstant", "fill"):
            l = L_()
            if l.op == "l" and l.args[0][0] == "$" and args:
                self.dims = {**self.dims, l: tuple(A(k) for k in range(len(args)))}
            if name in ("setZero", "setIdentity") and args:
                self.emit("resize", l, mk("list", tuple(A(k) for k in range(len(args)))), line) if not is_local(l) else None
            v = {"setZero": ZERO, "setOnes": mk("ones"), "setIdentity": mk("eye")}.get(name)
            if v is None:
                c = A(len(args) - 1)
                v = mul(c, mk("ones"))
                if l.op == "l" and len(args) == 1:
                    n = length(self.read(l))
                    if n.op != "len":
                        v = arr_make(n, c, 0)
            if l.op not in ("l", "f", "i", "p", "sym", "this"):
                if v is ZERO and l.op == "undef" and len(l.args) == 2 and isinstance(l.args[1], Term):
                    return mk("zeros", (l.args[1],))
                return v
            self.write(l, v, line)
            return l
        if name in ("resize", "conservativeResize"):
            l = L_()
            vs = tuple(A(k) for k in range(len(args)))
            if is_local(l):
                cur = self.read(l)
                if name == "resize":
                    self.write(l, mk("undef", "M", vs), line)
                    if l.op == "l" and l.args[0][0] == "$":
                        self.dims = {**self.dims, l: vs}
            else:
                self.emit(name, l, mk("list", vs), line)
            return mk("none")
        if name in ("Zero",):
            return ZERO
        if name == "Identity":
            return mk("eye") if "Quaternion" not in cls else mk("quat", ONE, ZERO, ZERO, ZERO)
        if name in ("Ones",):
            return mk("ones")
        if name == "Constant":
            return mul(A(len(args) - 1), mk("ones"))
        if name in ("UnitX", "UnitY", "UnitZ"):
            k = "XYZ".index(name[-1])
            return mk("vec", tuple(ONE if i == k else ZERO for i in range(3)))
        if name == "operator=" or name == "lazyAssign":
            l = L_()
            z = self.sized(e[3][0]) if not is_local(l) and e[3] else None
            if z is not None:
                self.emit("resize", l, mk("list", z), line)
            v = A(0)
            self.write(l, v, line)
            return l
        if name in ("operator+=", "operator-=", "operator*=", "operator/="):
            l = L_()
            if l.op in ("l", "f", "i", "sym"):
                MAT.add(l)
            old = self.read(l)
            r = A(0)
            op = name[8]
            if op == "*":
                v = mm(old, r) if is_mat(r) else mul(old, r)
            else:
                v = binop(op, old, r, "f")
            self.write(l, v, line)
            return l
        if name in ("operator+", "operator-", "operator*", "operator/", "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            vs = ([rv()] if recv is not None else []) + [A(k) for k in range(len(args))]
            op = name[8:]
            if len(vs) == 1:
                return neg(vs[0]) if op == "-" else vs[0]
            a, b = vs
            for v, ex in zip(vs, ([recv] if recv is not None else []) + list(args)):
                if not is_num(v) and self.etag(ex).startswith("M:"):
                    if v.op != "+":
                        MAT.add(v)
            if op == "*":
                if "Quaternion" in cls:
                    return mk("qmul" if is_q(a, b, tag) else "mm", (a, b)) if not is_q(a, b, tag) else qmul(a, b)
                if "Array" in q.split("operator")[0] and "ArrayBase" in q:
                    return bilinear("cw", a, b, 1)
                return mm(a, b)
            return binop(op, a, b, "f")
        if name == "operator<<":
            # comma initialiser
            l = L_()
            v = A(0)
            self.comma = [l, [v], line]
            self.write(l, mk("vec", (v,)) if self.is_static_vec1(recv) else self.filled(l, [v], recv), line)
            return mk("commainit", l)
        if name == "operator,":
            c = L_()
            if self.comma is not None:
                self.comma[1].append(A(0))
                l = self.comma[0]
                st = self.fx
                # replace the last recorded write of the initialiser
                if st and st[-1].kind == "set" and st[-1].target is l:
                    st.pop()
                self.write(l, mk("vec", tuple(self.comma[1])), self.comma[2])
                return mk("commainit", l)
        if name == "data":
            l = L_()
            if l.op == "addr":
                l = l.args[0]
            MAT.add(l)
            return mk("addr", mk("i", l, (ZERO,)))
        if name in ("valuePtr", "outerIndexPtr", "innerIndexPtr"):
            l = L_()
            if l.op == "addr":
                l = l.args[0]
            if l.op in ("l", "f", "i", "sym", "ite"):
                # the storage behind the pointer: writes through it change the matrix
                a = mk("f", l, "$" + name)
                MAT.add(a)
                return mk("addr", mk("i", a, (ZERO,)))
        if name in ("normalize",):
            l = L_()
            self.write(l, mk("ef", "normalized", self.read(l), (), ()), line)
            return l
        if name in ("swap",):
            return None
        if name == "Map" or cls.endswith("Map"):
            return None
        return None

    comma = None

    def filled(self, l, vs, recv):
        return mk("vec", tuple(vs))

    def is_static_vec1(self, recv):
        return False

    def etag(self, ex):
        k = ex[0]
        if k == "call":
            return ex[4]
        if k == "var":
            return ex[4] if len(ex) > 4 else ""
        if k == "fld":
            return ex[4] if len(ex) > 4 else ""
        if k == "ctor":
            return ex[3]
        return ""

    def static_size(self, recv):
        s = self.static_shape(recv)
        if s and s[0] is not None and s[1] is not None:
            return num(s[0].args[0] * s[1].args[0])
        return None

    def static_shape(self, recv):
        return None

def is_q(a, b, tag):
    return "Quaternion" in tag


def appended(e, cv):
    """e == append(cv, d): the appended item"""
    if e.op == "append" and e.args[0] is cv:
        return e.args[1]
    if e.op == "ite":
        for c, x, y in ((e.args[0], e.args[1], e.args[2]), (bnot(e.args[0]), e.args[2], e.args[1])):
            if y is cv:
                d = appended(x, cv)
                if d is not None:
                    return mk("maybe", boolt(c), d)
        a, b = appended(e.args[1], cv), appended(e.args[2], cv)
        if a is not None and b is not None:
            return ite(e.args[0], a, b)
    return None


def qmul(a, b):
    return mk("qmul", a, b)


PTRCLS = {"std::shared_ptr", "std::unique_ptr", "boost::shared_ptr", "std::__shared_ptr_access", "std::__shared_ptr"}
VECCLS = {"std::vector", "std::array", "std::deque", "std::list"}
MATHFN = {"fabs": "abs", "abs": "abs", "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "atan2": "atan2", "acos": "acos",
          "asin": "asin", "atan": "atan", "exp": "exp", "log": "log", "floor": "floorf", "ceil": "ceilf", "fmod": "fmod", "tanh": "tanh"}
PTRS = set()
LAMS = {}


def strcat(a, b):
    xs = []
    for t in (a, b):
        xs.extend(t.args[0] if t.op == "cat" else [t])
    out = []
    for t in xs:
        if out and out[-1].op == "str" and t.op == "str":
            out[-1] = mk("str", out[-1].args[0] + t.args[0])
        elif t.op == "str" and t.args[0] == "":
            continue
        else:
            out.append(t)
    if not out:
        return mk("str", "")
    return out[0] if len(out) == 1 else mk("cat", tuple(out))


def ptr_split(v):
    """pointer arithmetic base+offset"""
    base = None
    rest = []
    for m, c in v.args[0]:
        if base is None and c == 1 and len(m) == 1 and m[0][1] == 1 and (m[0][0] in PTRS or m[0][0].op == "addr"):
            base = m[0][0]
        else:
            rest.append(nf._build({m: c}))
    if base is None:
        return None, None
    off = add(*rest) if rest else ZERO
    if base.op == "addr":
        b = base.args[0]
        if b.op == "i" and len(b.args[1]) == 1:
            return b.args[0], add(b.args[1][0], off)
        return b, off
    return base, off


def binop(op, a, b, tag):
    if op == "+":
        if a.op in ("str", "cat") or b.op in ("str", "cat"):
            return strcat(a, b)
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        if is_mat(a) and is_mat(b):
            return mm(a, b)
        return mul(a, b)
    if op == "/":
        if tag == "i":
            if is_num(a) and is_num(b) and b.args[0]:
                import math
                return num(math.trunc(a.args[0] / b.args[0]))
            if b is ONE:
                return a
            r = mk("idiv", a, b)
            INT.add(r)
            return r
        return div(a, b)
    if op == "%":
        if is_num(a) and is_num(b) and b.args[0]:
            return num(a.args[0] % b.args[0])
        r = mk("mod", a, b)
        INT.add(r)
        return r
    if op == "<":
        return boolt(lt(a, b))
    if op == ">":
        return boolt(lt(b, a))
    if op == "<=":
        return boolt(le(a, b))
    if op == ">=":
        return boolt(le(b, a))
    if op == "==":
        return boolt(eqv(a, b, tag))
    if op == "!=":
        return boolt(bnot(eqv(a, b, tag)))
    if op == "**":
        return power(a, b)
    if op == "@":
        return mm(a, b)
    if op in ("&", "|", "^"):
        if a.op == "b" or b.op == "b":
            fa, fb = truth(a), truth(b)
            return boolt(band(fa, fb) if op == "&" else bor(fa, fb) if op == "|" else bite(fa, bnot(fb), fb))
        x, y = sorted((a, b))
        r = mk("bitop", op, x, y)
        INT.add(r)
        return r
    return mk("c", "op" + op, None, (a, b))


def eqv(a, b, tag=""):
    if a.op == "b" or b.op == "b":
        fa, fb = truth(a), truth(b)
        return bite(fa, fb, bnot(fb))
    return eq(a, b)


def has_effect(e):
    if not isinstance(e, list):
        return False
    if e and e[0] in ("asg", "delete", "throw", "new"):
        return True
    if e and e[0] == "call" and isinstance(e[7], str) and "c" not in e[7] and e[2] is not None and "r" not in e[7] and "k" not in e[7]:
        return True
    return any(has_effect(x) for x in e if isinstance(x, list))


# ---- bound variables ------------------------------------------------------------
def _height(t, memo={}):
    h = memo.get(t)
    if h is None:
        h = 0
        for x in subterms(t):
            if x.op == "B":
                h = max(h, x.args[0] + 1)
        memo[t] = h
    return h


def bindvar(t, d):
    """replace loop variable of depth d (and carry symbols) by a bound variable"""
    L = mk("L", d)
    if isinstance(t, tuple):
        w = mk("tup", t)
        r = bindvar(w, d)
        return r.args[0]
    if not contains(t, lambda x: x is L):
        return t
    B = mk("B", _height(t))
    return subst(t, lambda x: B if x is L else None)


def bindform(f, d):
    t = bindvar(boolt(f), d)
    return t.args[0]


def contains_L(f, d):
    L = mk("L", d)
    return fcontains(f, lambda x: x is L)


def dotform(dom, core, L):
    """sum of X[k+j]*Y[m+j] is a scalar product"""
    t = nf._terms(core)
    if len(t) != 1:
        return None
    m, c = next(iter(t.items()))
    fs = [a for a, e in m for _ in range(int(e) if e in (1, 2) else 9)]
    if c != 1 or len(fs) != 2:
        return None
    out = []
    for a in fs:
        if a.op != "i" or contains(a.args[0], lambda x: x is L) or sum(contains(x, lambda y: y is L) for x in a.args[1]) != 1:
            return None
        idx = []
        for x in a.args[1]:
            if contains(x, lambda y: y is L):
                o = sub(x, L)
                if contains(o, lambda y: y is L) or x.op == "sl":
                    return None
                if o is ZERO and len(a.args[1]) == 1 and length(a.args[0]) is dom:
                    x = SLALL
                else:
                    x = mk("sl", o, dom)
            elif x.op == "sl":
                return None
            idx.append(x)
        MAT.add(a.args[0])
        r = index(a.args[0], tuple(idx))
        MAT.add(r)
        out.append(r)
    return bilinear("dot", out[0], out[1], 1)


def arr_dot(a, b):
    if a.op != "arr" and b.op != "arr":
        return None
    n = (a if a.op == "arr" else b).args[0]
    L = mk("L", 98)
    x, y = index(a, (L,)), index(b, (L,))
    return mksum(n, mul(x, y), 98)


nf.HOOKS["dot"] = arr_dot


def idiff(e, x):
    """e - x, taken inside conditionals"""
    if e.op == "ite":
        return ite(e.args[0], idiff(e.args[1], x), idiff(e.args[2], x))
    return sub(e, x)


def mksum(dom, body, d):
    """sum over the loop variable of depth d"""
    L = mk("L", d)
    if body.op == "ite" and not any(contains(a, lambda x: x is L) for a in bsupport(body.args[0])):
        return ite(body.args[0], mksum(dom, body.args[1], d), mksum(dom, body.args[2], d))
    if not contains(body, lambda x: x is L):
        return mul(dom, body)
    # linearity: constants out, conditional summands term by term
    parts = []

    def leaf(mask, m, c):
        inv_ = [power(a, num(e)) for a, e in m if not contains(a, lambda x: x is L)]
        dep = [power(a, num(e)) for a, e in m if contains(a, lambda x: x is L)]
        core = mul(*dep) if dep else None
        if mask != T:
            core = ite(mask, core if core is not None else ONE, ZERO)
        if core is None:
            parts.append(mul(num(c), dom, *inv_))
        elif dotform(dom, core, L) is not None:
            parts.append(mul(num(c), dotform(dom, core, L), *inv_))
        else:
            s = mk("sum", dom, bindvar(core, d))
            if is_mat(core):
                MAT.add(s)
            parts.append(mul(num(c), s, *inv_))

    def split(mask, body, deep):
        for m, c in nf._terms(body).items():
            it = next((a for a, e in m if e == 1 and a.op == "ite" and not is_mat(a) and contains(a, lambda x: x is L)), None)
            if it is None or deep > 3:
                leaf(mask, m, c)
                continue
            rest = [power(a, num(e)) for a, e in m if a is not it]
            for g, v in ((it.args[0], it.args[1]), (bnot(it.args[0]), it.args[2])):
                g = band(mask, g)
                if g != F and v is not ZERO:
                    split(g, mul(num(c), v, *rest), deep + 1)
    split(T, body, 0)
    return add(*parts)


def domain(c, L):
    """loop condition at index L -> (count Term, residual formula) or (None, c)"""
    if c == F:
        return ZERO, T
    for a in bsupport(c):
        if a.op not in ("lt0", "le0", "eq0", "eqc"):
            continue
        if a.op == "eqc":
            p = sub(a.args[0], a.args[1]) if is_num(a.args[1]) else None
            if p is None:
                continue
        else:
            p = a.args[0]
        if not contains(p, lambda x: x is L):
            continue
        for pol in (True, False):
            other = brestrict(c, a, not pol)
            if other != F:
                continue
            rest = brestrict(c, a, pol)
            # p = k*L + r
            k, r = 0, []
            lin = True
            for m, co in nf._terms(p).items():
                if len(m) == 1 and m[0][0] is L and m[0][1] == 1:
                    k = co
                elif any(contains(x, lambda y: y is L) for x, _ in m):
                    lin = False
                else:
                    r.append(nf._build({m: co}))
            if not lin or k == 0:
                continue
            r = add(*r) if r else ZERO
            if a.op in ("lt0", "le0"):
                strict = (a.op == "lt0") == pol
                if pol and k > 0:        # k L + r < 0  (or <=)
                    q = scale(neg(r), 1 / k)
                elif not pol and k < 0:  # k L + r >= 0 (or >)
                    q = scale(r, 1 / (-k))
                else:
                    continue
                # L < q  (lt0 pos, le0 neg)   or  L <= q
                isstrict = (a.op == "lt0") if pol else (a.op == "le0")
                if abs(k) == 1:
                    n = q if isstrict else add(q, ONE)
                else:
                    if is_num(q):
                        import math
                        n = num(math.ceil(q.args[0]) if isstrict else math.floor(q.args[0]) + 1)
                    else:
                        n = mk("ceildiv", q) if isstrict else add(mk("floordiv", q), ONE)
                return n, rest
            else:
                if pol:
                    continue
                n = scale(neg(r), 1 / k)
                return n, rest
    return None, c


def body_once(S, cond, body, inc, line):
    ctl = {"kind": "loop", "brk": [], "cont": [], "ret": [], "basemark": len(S.base), "frame": S.frames[-1]}
    S.lctl.append(ctl)
    S.loops.append(mk("dry"))
    cond()
    live0 = S.st.live
    body()
    S.join_cont(ctl)
    if S.st.live != F:
        inc()
    # a path that leaves the loop does not continue: merge of continuing paths only
    S.lctl.pop()
    S.loops.pop()


def body_once2(S, body, inc):
    ctl = {"kind": "loop", "brk": [], "cont": [], "ret": [], "basemark": len(S.base), "frame": S.frames[-1]}
    S.lctl.append(ctl)
    S.loops.append(mk("dry"))
    body()
    S.lctl.pop()
    S.loops.pop()
    return bor(*[g for g, _ in ctl["brk"]], *ctl["ret"])


# return points must remember the store: patched into s_ret
_old_ret = Summ.s_ret


def _s_ret(self, s):
    fr = self.frames[-1]
    if not hasattr(fr, "retstores"):
        fr.retstores = []
    n = len(fr.rets)
    _old_ret(self, s)
    if len(fr.rets) > n:
        fr.retstores.append(dict(self.st.store))


Summ.s_ret = _s_ret
