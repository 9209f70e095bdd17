"""Python front end: the same guarded-effect summaries over the Python syntax tree."""
import ast, os
from .nf import *
from . import nf
from .summ import (Summ, Frame, State, Effect, Giveup, THIS, ALL, SLALL, index, fieldof, is_local, root, LAMS,
                   MATHFN, strcat, binop, eqv, bindvar, bindform, domain, mksum)
from .cxx import REPO, AnalysisBroken

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "fill", "resize", "itemset", "add", "setdefault", "discard"}
PUREMETH = {"copy", "transpose", "dot", "reshape", "flatten", "ravel", "astype", "tolist", "sum", "mean", "min", "max", "norm", "index",
            "keys", "values", "items", "get", "format", "join", "split", "strip", "startswith", "endswith", "lower", "upper", "replace",
            "any", "all", "squeeze", "conj", "argmax", "argmin", "inverse", "matrix", "toRotationMatrix", "coeffs", "normalized", "actInv", "act", "cross", "outer", "trace", "homogeneous", "rotation", "translation", "T", "I", "round", "cumsum", "isoformat"}
PUREMOD = {"np", "numpy", "math", "pin", "pinocchio", "se3", "cvxopt", "scipy", "os", "time"}
# pinocchio functions that write their results into the data argument
IMPUREPIN = {"ccrba", "crba", "rnea", "aba", "forwardKinematics", "framesForwardKinematics", "updateFramePlacements", "updateFramePlacement", "updateGlobalPlacements",
             "computeJointJacobians", "computeJointJacobiansTimeVariation", "computeCentroidalMapTimeVariation", "computeCentroidalMap", "computeAllTerms",
             "centerOfMass", "jacobianCenterOfMass", "dccrba", "computeCentroidalMomentum", "computeMinverse", "computeTotalMass"}
IMPUREFN = {"np.savetxt", "np.save", "np.random", "os.mkdir", "os.makedirs", "os.remove"}
CONST_FN = {"float", "int", "bool", "str", "abs", "min", "max", "sum", "len", "list", "tuple", "round", "sorted", "reversed", "range", "zip", "enumerate", "isinstance", "type", "any", "all", "set", "dict", "map", "hasattr", "getattr", "super", "print", "id", "repr", "callable", "iter", "next", "open"}


class PyModule:
    def __init__(self, path):
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        try:
            src = open(path).read()
        except OSError:
            raise AnalysisBroken("anchor file %s not found" % self.rel)
        try:
            self.tree = ast.parse(src)
        except SyntaxError as e:
            raise AnalysisBroken("%s does not parse: %s" % (self.rel, e))
        self.fns, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.scan(self.tree.body)

    def scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.fns[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module or "") + "." + a.name
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self.scan(n.body)

    def method(self, cls, name, seen=()):
        c = self.classes.get(cls)
        if c is None:
            return None
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n
        for b in c.bases:
            bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
            if bn and bn not in seen:
                m = self.method(bn, name, seen + (cls,))
                if m is not None:
                    return m
        return None

    def attr(self, cls, name):
        c = self.classes.get(cls)
        for n in (c.body if c else []):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return n.value
        return None


class PyFn:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls


class PyFrame(Frame):
    def __init__(self, fn, this, mod, cls):
        super().__init__(fn, this)
        self.mod, self.cls = mod, cls
        self.globals = set()
        self.retstores = []


def load(rel):
    return PyModule(os.path.join(REPO, rel))


def find(mod, qual):
    if "." in qual:
        c, m = qual.split(".")
        n = mod.method(c, m)
        if n is None:
            raise AnalysisBroken("anchor %s in %s not found" % (qual, mod.rel))
        return PyFn(mod, n, c)
    if qual not in mod.fns:
        raise AnalysisBroken("anchor %s in %s not found" % (qual, mod.rel))
    return PyFn(mod, mod.fns[qual])


def mutated_names(node):
    """names stored through (subscript / attribute / augmented / mutating method) in a function"""
    out = set()

    def base(x):
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            x = x.value
        return x.id if isinstance(x, ast.Name) else None
    for n in ast.walk(node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                for y in ast.walk(t):
                    if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, ast.Store):
                        out.add(base(y))
                if isinstance(n, ast.AugAssign) and isinstance(t, ast.Name):
                    out.add(t.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            out.add(base(n.func.value))
    return out


class PySumm(Summ):
    """prog: PyModule"""

    def __init__(self, mod, scalars=(), arrays=None, ext=None, pure=None, vec1=None, **kw):
        super().__init__(None, **kw)
        self.mod = mod
        self.scal = scalars if callable(scalars) else (lambda t, s=set(scalars): t.op in ("sym", "l") and t.args[0] in s or t.op == "f" and t.args[1] in s)
        self.arrays = arrays or (lambda loc: False)     # locations updated in place by augmented assignment
        self.ext = ext or {}                            # imported name -> PyModule (inlined across modules)
        self.pure = pure or (lambda dotted: False)
        self.vec1 = vec1 or (lambda t: False)           # known one-dimensional arrays: transposing does nothing

    # -------------------------------------------------------------- entry
    def run(self, fn, args=None, this=THIS):
        node = fn.node
        fr = PyFrame({"name": (fn.cls + "." if fn.cls else "") + node.name, "file": fn.mod.rel, "retref": "", "params": []}, this, fn.mod, fn.cls)
        fr.mut = mutated_names(node)
        self.frames.append(fr)
        self.file = fn.mod.rel
        ps = node.args.posonlyargs + node.args.args + node.args.kwonlyargs
        for i, p in enumerate(ps):
            if i == 0 and fn.cls and p.arg == "self":
                fr.env["self"] = this
                continue
            v = (args or {}).get(p.arg)
            if v is None:
                v = mk("sym", p.arg)
            if p.arg in fr.mut and v.op in ("sym", "f", "i") and not self.scal(v):
                fr.env[p.arg] = v
            else:
                self.bindlocal(fr, p.arg, v)
        for p in (node.args.vararg, node.args.kwarg):
            if p is not None:
                self.bindlocal(fr, p.arg, mk("sym", p.arg))
        self.block(node.body)
        self.frames.pop()
        rv = None
        for g, v in reversed(fr.rets):
            if v is not None:
                rv = v if rv is None else ite(g, v, rv)
        self.retval = rv
        self.store_end = self.st.store
        return self.fx

    def bindlocal(self, fr, name, v):
        self.uid += 1
        l = mk("l", name, self.uid)
        fr.env[name] = l
        self.st.store[l] = v
        if self.modset is not None:
            self.modset.add(l)
        return l

    # -------------------------------------------------------------- statements
    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((self.file, getattr(s, "lineno", 0), type(s).__name__))
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.val(s.value)

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Import

    def s_Global(self, s):
        self.frames[-1].globals |= set(s.names)

    def s_Nonlocal(self, s):
        pass

    def s_Assert(self, s):
        c = truth(self.val(s.test))
        self.branch(c, lambda: None, lambda: (self.emit("throw", None, mk("str", "assert"), s.lineno), setattr(self.st, "live", F)))

    def s_Raise(self, s):
        x = s.exc
        if isinstance(x, ast.Call):
            x = x.func
        if isinstance(x, (ast.Name, ast.Attribute)) and (x is not s.exc or getattr(x, "id", "")[:1].isupper()):
            v = mk("str", ast.unparse(x))      # the kind of exception, not its message
        else:
            v = self.val(s.exc) if s.exc is not None else None
        self.emit("throw", None, v, s.lineno)
        self.st.live = F

    def s_Delete(self, s):
        for t in s.targets:
            self.emit("call", mk("str", "del"), self.val(t), s.lineno)

    def s_FunctionDef(self, s):
        self.uid += 1
        k = "def@%d" % id(s)
        LAMS[k] = (s, list(self.frames))
        self.bindlocal(self.frames[-1], s.name, mk("lam", k))

    def s_ClassDef(self, s):
        self.unknown.append((self.file, s.lineno, "class"))

    def s_Assign(self, s):
        if len(s.targets) == 1:
            self.assign(s.targets[0], s.value, s.lineno)
            return
        v = self.val(s.value)
        for t in s.targets:
            self.store(t, v, s.lineno)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, s.value, s.lineno)

    def assign(self, t, ve, line):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(ve, (ast.Tuple, ast.List)) and len(t.elts) == len(ve.elts):
            vs = [self.val(x) for x in ve.elts]
            for a, v in zip(t.elts, vs):
                self.store(a, v, line)
            return
        fr = self.frames[-1]
        if isinstance(t, ast.Name) and t.id in getattr(fr, "mut", ()) and isinstance(ve, (ast.Attribute, ast.Subscript, ast.Name)) and t.id not in fr.globals:
            l = self.loc(ve)
            if l.op in ("f", "i", "sym") and not self.scal(l):
                # alias to an object that is later changed through this name
                fr.env[t.id] = l
                return
            if l.op == "l":
                v = self.st.store.get(l)
                if v is not None and v.op not in ("n", "b", "str") and isinstance(ve, ast.Name) and ve.id != t.id:
                    fr.env[t.id] = l
                    return
        self.store(t, self.val(ve), line)

    def store(self, t, v, line):
        fr = self.frames[-1]
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.write(mk("sym", t.id), v, line)
                return
            l = fr.env.get(t.id)
            if l is None or l.op != "l" or l.args[0] != t.id:
                self.bindlocal(fr, t.id, v)
            else:
                self.write(l, v, line)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            for k, a in enumerate(t.elts):
                if isinstance(a, ast.Starred):
                    self.store(a.value, index(v, (mk("sl", num(k), ALL),)), line)
                else:
                    self.store(a, self.item(v, (num(k),)), line)
            return
        if isinstance(t, ast.Starred):
            self.store(t.value, v, line)
            return
        self.write(self.loc(t), v, line)

    def s_AugAssign(self, s):
        r = self.val(s.value)
        op = type(s.op)
        if isinstance(s.target, ast.Name):
            l = self.frames[-1].env.get(s.target.id)
            if l is None:
                l = self.loc(s.target)
            if l.op != "l" and not self.arrays(l):
                # scalar semantics: rebinding
                v = self.binop(op, self.read(l), r)
                self.bindlocal(self.frames[-1], s.target.id, v)
                return
        else:
            l = self.loc(s.target)
        old = self.read(l)
        if op is ast.Add and old.op == "list":
            r2 = r.args[0] if r.op in ("list", "tup") else None
            self.write(l, mk("list", old.args[0] + r2) if r2 is not None else self.concat(old, r), s.lineno)
            return
        self.write(l, self.binop(op, old, r), s.lineno)

    def s_If(self, s):
        c = truth(self.val(s.test))
        fr = self.frames[-1]
        self.branch_env(c, lambda: self.block(s.body), lambda: self.block(s.orelse), dict(fr.env))

    def branch_env(self, c, fa, fb, env0):
        """branches may bind names to different locations: names are merged by value"""
        fr = self.frames[-1]
        if c == T:
            fa()
            return
        if c == F:
            fb()
            return
        s0 = self.st
        live0 = s0.live
        self.st = State(dict(s0.store), live0)
        self.base.append(c)
        fr.env = dict(env0)
        fa()
        enva, sa = dict(fr.env), self.st
        self.base.pop()
        self.st = State(dict(s0.store), live0)
        self.base.append(bnot(c))
        fr.env = dict(env0)
        fb()
        envb, sb = dict(fr.env), self.st
        self.base.pop()
        la, lb = band(sa.live, c), band(sb.live, bnot(c))
        if la == F and lb == F:
            self.st = State(sa.store, F)
            fr.env = enva
            return
        if la == F:
            self.st = State(sb.store, lb)
            fr.env = envb
            return
        if lb == F:
            self.st = State(sa.store, la)
            fr.env = enva
            return
        env = {}
        extra = []
        for n in set(enva) | set(envb):
            x, y = enva.get(n), envb.get(n)
            if x is y:
                env[n] = x
                continue
            vx = self.readin(sa.store, x) if x is not None and x.op in ("l", "f", "i", "sym") else (x if x is not None else mk("unbound"))
            vy = self.readin(sb.store, y) if y is not None and y.op in ("l", "f", "i", "sym") else (y if y is not None else mk("unbound"))
            self.uid += 1
            l = mk("l", n, self.uid)
            env[n] = l
            extra.append((l, self.cased(ite(c, vx, vy), bor(la, lb))))
        st = self.merge(c, sa.store, sb.store, bor(la, lb))
        for l, v in extra:
            st[l] = v
            if self.modset is not None:
                self.modset.add(l)
        fr.env = env
        self.st = State(st, bor(la, lb))

    def s_While(self, s):
        if s.orelse:
            self.unknown.append((self.file, s.lineno, "while-else"))
        self.prebind(s.body)
        self.loop(lambda: truth(self.val(s.test)), lambda: self.block(s.body), lambda: None, s.lineno)

    def prebind(self, body):
        """names first assigned inside a loop body live on after it: give them one location"""
        fr = self.frames[-1]
        names = []
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.append(n.id)
        for n in dict.fromkeys(names):
            l = fr.env.get(n)
            if l is None and n not in getattr(fr, "mut", ()):
                self.bindlocal(fr, n, mk("unbound"))
            elif l is None:
                self.bindlocal(fr, n, mk("unbound"))

    def s_For(self, s):
        if s.orelse:
            self.unknown.append((self.file, s.lineno, "for-else"))
        n, bind = self.iteration(s.iter)
        self.prebind([ast.Expr(s.target)])
        self.prebind(s.body)
        fr = self.frames[-1]
        if isinstance(n, list):
            self.unrolled([lambda v=v: self.store(s.target, v, s.lineno) for v in n], lambda: self.block(s.body), s.lineno)
            return
        self.count_loop(n, lambda L: self.bindtarget(s.target, bind(L)), lambda: self.block(s.body), s.lineno)

    def bindtarget(self, t, v):
        fr = self.frames[-1]
        if isinstance(t, ast.Name):
            if v.op in ("f", "i") and t.id in getattr(fr, "mut", ()) and not self.scal(v):
                fr.env[t.id] = v
                return
            l = fr.env.get(t.id)
            if l is None or l.op != "l":
                l = self.bindlocal(fr, t.id, v)
            else:
                self.write(l, self.read(v) if v.op in ("f", "i") else v, 0)
            return
        self.store(t, v, 0)

    def iteration(self, it):
        """(count Term, index->item) or (list of items, None)"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            f = it.func.id
            if f == "range":
                a = [self.val(x) for x in it.args]
                lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
                for t in (lo, hi, st):
                    if not is_num(t) and t.op != "+":
                        INT.add(t)
                d = sub(hi, lo)
                if is_num(d) and is_num(st) and st.args[0] != 0:
                    r = range(int(lo.args[0]) if is_num(lo) else 0, (int(lo.args[0]) if is_num(lo) else 0) + int(d.args[0]), int(st.args[0]))
                    if len(r) <= self.UNROLL:
                        off = ZERO if is_num(lo) else lo
                        return [add(off, num(x)) for x in r], None
                    n = num(len(r))
                elif st is ONE:
                    n = d
                elif is_num(st) and st.args[0] == -1:
                    n = neg(d)
                else:
                    n = mk("ceildiv", div(d, st))
                return n, lambda L: add(lo, mul(st, L))
            if f == "enumerate":
                n, b = self.iteration(it.args[0])
                if isinstance(n, list):
                    return [mk("list", (num(k), v)) for k, v in enumerate(n)], None
                return n, lambda L: mk("list", (L, b(L)))
            if f == "zip":
                its = [self.iteration(x) for x in it.args]
                if all(isinstance(n, list) for n, _ in its):
                    return [mk("list", tuple(v)) for v in zip(*[n for n, _ in its])], None
                ns = [(num(len(n)) if isinstance(n, list) else n) for n, _ in its]
                n = ns[0]
                return n, lambda L: mk("list", tuple((b(L) if b else index(mk("list", tuple(nn)), (L,))) for nn, b in its))
            if f == "reversed":
                n, b = self.iteration(it.args[0])
                if isinstance(n, list):
                    return list(reversed(n)), None
                return n, lambda L: b(sub(sub(n, ONE), L))
        l = self.loc(it)
        v = self.read(l) if l.op in ("l", "f", "i", "sym") else l
        if v.op == "b" or is_num(v):
            v = mk("seq", v)
        if v.op == "list" and len(v.args[0]) <= 64:
            return list(v.args[0]), None
        if v.op == "str":
            return [mk("str", c) for c in v.args[0]], None
        src = v if l.op == "l" else l
        if v.op == "comp" and len(v.args) == 2:
            return v.args[0], lambda L: subst(v.args[1], lambda x: L if x.op == "B" and x.args[0] == v_height(v) else None)
        return mk("len", v), lambda L: self.item(src, (L,))

    def s_Return(self, s):
        v = self.val(s.value) if s.value is not None else mk("none")
        fr = self.frames[-1]
        fr.rets.append((self.rel_guard(fr), v))
        fr.retstores.append(dict(self.st.store))
        if len(self.frames) == 1:
            self.emit("ret", None, v, s.lineno)
        self.loop_return()
        self.st.live = F

    def s_Break(self, s):
        self.s_break(s)

    def s_Continue(self, s):
        self.s_cont(s)

    def s_Try(self, s):
        s0 = self.st.copy()
        self.block(s.body)
        if self.st.live != F:
            self.block(s.orelse)
        end = self.st
        for h in s.handlers:
            nm = ast.unparse(h.type) if h.type is not None else "*"
            exc = bvar(mk("exc", nm))
            self.st = State(dict(s0.store), s0.live)
            for k in list(self.st.store):
                if end.store.get(k) is not s0.store.get(k) and is_local(k):
                    self.st.store[k] = mk("havoc", k, ZERO)
            self.base.append(exc)
            self.block(h.body)
            self.base.pop()
            hl = band(self.st.live, exc)
            if hl == F:
                end = State(end.store, band(end.live, bnot(exc)))
            else:
                end = State(self.merge(exc, self.st.store, end.store), bor(band(end.live, bnot(exc)), hl))
        self.st = end
        self.block(s.finalbody)

    def s_With(self, s):
        for w in s.items:
            v = self.val(w.context_expr)
            if w.optional_vars is not None:
                self.store(w.optional_vars, v, s.lineno)
        self.block(s.body)

    # -------------------------------------------------------------- expressions
    def val(self, e, line=0):
        if e is None:
            return mk("none")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((self.file, getattr(e, "lineno", 0), type(e).__name__))
            return mk("unk", type(e).__name__)
        return m(e)

    def loc(self, e):
        if isinstance(e, ast.Name):
            for fr in (self.frames[-1],):
                if e.id in fr.env:
                    l = fr.env[e.id]
                    return l
            for fr in reversed(self.frames[:-1]):
                if getattr(fr, "closure", None) and e.id in fr.env:
                    return fr.env[e.id]
            return self.globalname(e.id)
        if isinstance(e, ast.Attribute):
            if e.attr == "T":
                return self.tr(self.matv(e.value))
            b = self.loc(e.value)
            if b.op == "l":
                v = self.read(b)
                if v.op in ("f", "i", "sym", "this", "c", "new", "ite"):
                    b = v
            h = self.handlers.get("." + e.attr)
            if h is not None:
                r = h(self, e, b)
                if r is not NotImplemented:
                    return r
            fr = self.frames[-1]
            if b is THIS and fr.cls:
                # property getter
                m = fr.mod.method(fr.cls, e.attr)
                if m is not None:
                    if any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list):
                        return self.inline_py(fr.mod, m, fr.cls, THIS, [], {}, e.lineno)
                    return mk("bound", e.attr, b)
            return fieldof(b, e.attr)
        if isinstance(e, ast.Subscript):
            b = self.loc(e.value)
            idx = self.subidx(e.slice, b)
            return self.item(b, idx)
        return self.val(e)

    def globalname(self, n):
        fr = self.frames[-1]
        mod = fr.mod
        if n in mod.consts and not isinstance(mod.consts[n], (ast.Call, ast.Name)):
            c = mod.consts[n]
            if isinstance(c, (ast.Constant, ast.Tuple, ast.List, ast.UnaryOp, ast.BinOp)):
                return self.val(c)
        if n in mod.imports:
            return mk("mod", mod.imports[n])
        if n in mod.fns:
            return mk("fn", n)
        if n in mod.classes:
            return mk("cls", n)
        return mk("sym", n)

    def item(self, b, idx):
        """b[idx] with a[i, j] split to a[i][j] for scalar i"""
        idx = list(idx)
        while idx and idx[-1] is SLALL and len(idx) > 1:
            idx.pop()
        while len(idx) > 1 and idx[0].op not in ("sl", "slstep", "list"):
            b = self.item1(b, (idx.pop(0),))
        return self.item1(b, tuple(idx))

    def item1(self, b, idx):
        if b.op == "l":
            v = self.st.store.get(b)
            if v is not None and v.op in ("f", "i", "sym", "c") and not self.under(self.st.store, b):
                # a name bound to some other object: elements are that object's elements
                return index(v, idx)
        if b.op == "dict" and len(idx) == 1:
            for k, v in b.args[0]:
                if k is idx[0]:
                    return v
        return index(b, idx)

    def subidx(self, s, b):
        if isinstance(s, ast.Tuple):
            return tuple(self.sub1(x, b, k) for k, x in enumerate(s.elts))
        return (self.sub1(s, b, 0),)

    def length(self, b, k):
        v = self.read(b) if b.op in ("l", "f", "i", "sym") else b
        if v.op in ("list", "vec") and k == 0:
            return num(len(v.args[0]))
        if v.op == "zeros" and k < len(v.args[0]):
            return v.args[0][k]
        if k == 0:
            return mk("len", v)
        return mk("dim", v, num(k))

    def sub1(self, x, b, k):
        if isinstance(x, ast.Slice):
            lo = self.val(x.lower) if x.lower is not None else None
            hi = self.val(x.upper) if x.upper is not None else None
            if x.step is not None:
                st = self.val(x.step)
                if st is not ONE:
                    return mk("slstep", lo if lo is not None else mk("none"), hi if hi is not None else mk("none"), st)

            def fix(t):
                if is_num(t) and t.args[0] < 0:
                    return add(self.length(b, k), t)
                return t
            lo = fix(lo) if lo is not None else ZERO
            if hi is None:
                return SLALL if lo is ZERO else mk("sl", lo, ALL)
            hi = fix(hi)
            ln = None
            bb = self.read(b) if b.op == "l" else b
            if bb.op == "zeros" and k < len(bb.args[0]) and hi is bb.args[0][k]:
                return SLALL if lo is ZERO else mk("sl", lo, ALL)
            return mk("sl", lo, sub(hi, lo))
        if isinstance(x, ast.Constant) and x.value is Ellipsis:
            return SLALL
        v = self.val(x)
        if is_num(v) and v.args[0] < 0:
            return add(self.length(b, k), v)
        return v

    def e_Name(self, e):
        l = self.loc(e)
        if l.op in ("l", "f", "i", "sym"):
            return self.read(l)
        return l

    def e_Attribute(self, e):
        l = self.loc(e)
        return self.read(l) if l.op in ("l", "f", "i", "sym") else l

    def e_Subscript(self, e):
        l = self.loc(e)
        return self.read(l) if l.op in ("l", "f", "i", "sym") else l

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return mk("none")
        if isinstance(v, bool):
            return boolt(T if v else F)
        if isinstance(v, (int, float)):
            if v != v or v in (float("inf"), float("-inf")):
                return mk("sym", str(v))
            return num(v)
        if isinstance(v, str):
            return mk("str", v)
        return mk("const", repr(v))

    def e_JoinedStr(self, e):
        r = mk("str", "")
        for x in e.values:
            r = strcat(r, self.val(x.value) if isinstance(x, ast.FormattedValue) else self.val(x))
        return r

    def e_Tuple(self, e):
        return mk("list", tuple(self.val(x) for x in e.elts))

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Starred(self, e):
        return mk("star", self.val(e.value))

    def e_Dict(self, e):
        return mk("dict", tuple((self.val(k), self.val(v)) for k, v in zip(e.keys, e.values)))

    def e_UnaryOp(self, e):
        v = self.val(e.operand)
        if isinstance(e.op, ast.USub):
            if v.op == "vec":
                return mk("vec", tuple(neg(x) for x in v.args[0]))
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return boolt(bnot(truth(v)))
        return mk("c", "op~", None, (v,))

    def e_BoolOp(self, e):
        vs = []
        allb = True
        f = None
        isand = isinstance(e.op, ast.And)
        f = T if isand else F
        for x in e.values:
            v = self.val(x)
            f = band(f, truth(v)) if isand else bor(f, truth(v))
        return boolt(f)

    def binop(self, op, a, b):
        o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.FloorDiv: "//",
             ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}.get(op)
        if o == "@":
            return self.dot(a, b)
        if o == "//":
            if is_num(a) and is_num(b) and b.args[0]:
                return num(a.args[0] // b.args[0])
            r = mk("idiv", a, b)
            INT.add(r)
            return r
        if o is None:
            return mk("c", "op" + op.__name__, None, (a, b))
        if o in ("+", "-") and b.op == "zeros":
            return a
        if o == "+" and a.op == "zeros":
            return b
        if o == "-" and a.op == "zeros":
            return neg(b)
        if o == "+" and (a.op == "list" and b.op == "list"):
            return mk("list", a.args[0] + b.args[0])
        if o == "+" and (a.op in ("list", "concat") or b.op in ("list", "concat")):
            return self.concat(a, b)
        if o == "*" and (a.op == "list" or b.op == "list"):
            l, n = (a, b) if a.op == "list" else (b, a)
            if is_num(n) and n.args[0].denominator == 1 and len(l.args[0]) * n.args[0] <= 64:
                return mk("list", l.args[0] * int(n.args[0]))
            return mk("rep", l, n)
        if o == "%" and a.op in ("str", "cat"):
            return mk("c", "format", a, (b,))
        if o in ("+", "-") and a.op == "vec" and b.op == "vec" and len(a.args[0]) == len(b.args[0]):
            return mk("vec", tuple(binop(o, x, y, "") for x, y in zip(a.args[0], b.args[0])))
        if o in ("*", "/") and a.op == "vec" and (is_num(b) or self.scal(b)):
            return mk("vec", tuple(binop(o, x, b, "") for x in a.args[0]))
        if o == "*" and b.op == "vec" and (is_num(a) or self.scal(a)):
            return mk("vec", tuple(mul(a, y) for y in b.args[0]))
        if o in "*":
            return mul(a, b)
        if o == "/":
            return div(a, b)
        return binop(o, a, b, "")

    def e_BinOp(self, e):
        return self.binop(type(e.op), self.val(e.left), self.val(e.right))

    def e_Compare(self, e):
        a = self.val(e.left)
        f = T
        for op, x in zip(e.ops, e.comparators):
            b = self.val(x)
            f = band(f, self.cmp(op, a, b))
            a = b
        return boolt(f)

    def cmp(self, op, a, b):
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.GtE):
            return le(b, a)
        if isinstance(op, (ast.Eq, ast.Is)):
            return eqv(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return bnot(eqv(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            if b.op == "list":
                f = bor(*[eqv(a, x) for x in b.args[0]]) if b.args[0] else F
            elif b.op == "dict":
                f = bor(*[eqv(a, k) for k, _ in b.args[0]]) if b.args[0] else F
            else:
                f = bvar(mk("in", a, b))
            return f if isinstance(op, ast.In) else bnot(f)
        return bvar(mk("c", "cmp", None, (a, b)))

    def e_IfExp(self, e):
        c = truth(self.val(e.test))
        if c == T:
            return self.val(e.body)
        if c == F:
            return self.val(e.orelse)
        r = [None, None]
        self.branch(c, lambda: r.__setitem__(0, self.val(e.body)), lambda: r.__setitem__(1, self.val(e.orelse)))
        return ite(c, r[0], r[1])

    def e_Lambda(self, e):
        k = "lambda@%d" % id(e)
        LAMS[k] = (e, list(self.frames))
        return mk("lam", k)

    def e_ListComp(self, e):
        g = e.generators[0]
        fr = self.frames[-1]
        env0 = dict(fr.env)
        n, bind = self.iteration(g.iter)
        try:
            if isinstance(n, list):
                out = []
                for v in n:
                    self.store(g.target, v, e.lineno)
                    c = band(*[truth(self.val(x)) for x in g.ifs]) if g.ifs else T
                    if len(e.generators) > 1:
                        sub_ = ast.ListComp(e.elt, e.generators[1:])
                        ast.copy_location(sub_, e)
                        w = self.val(sub_)
                        if w.op == "list" and c == T:
                            out.extend(w.args[0])
                        else:
                            out.append(mk("star", w))
                    elif c == T:
                        out.append(self.val(e.elt))
                    elif c != F:
                        out.append(mk("maybe", boolt(c), self.val(e.elt)))
                return mk("list", tuple(out))
            L = mk("L", self.depth())
            live0 = self.st.live
            self.loops.append(n)
            self.base.append(live0)
            self.st.live = T
            self.store(g.target, bind(L), e.lineno)
            c = band(*[truth(self.val(x)) for x in g.ifs]) if g.ifs else T
            self.base.append(c)
            if len(e.generators) > 1:
                sub_ = ast.ListComp(e.elt, e.generators[1:])
                ast.copy_location(sub_, e)
                v = mk("star", self.val(sub_))
            else:
                v = self.val(e.elt)
            self.base.pop()
            self.base.pop()
            self.loops.pop()
            self.st.live = live0
            if c != T:
                v = mk("maybe", boolt(c), v)
            return mk("comp", n, bindvar(v, self.depth()))
        finally:
            fr.env = env0

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        return mk("c", "dictcomp", None, (self.e_ListComp(ast.copy_location(ast.ListComp(ast.Tuple([e.key, e.value], ast.Load()), e.generators), e)),))

    def e_NamedExpr(self, e):
        v = self.val(e.value)
        self.store(e.target, v, e.lineno)
        return v

    def e_Slice(self, e):
        return self.sub1(e, mk("none"), 0)

    # -------------------------------------------------------------- matrices
    def matv(self, e):
        v = self.val(e)
        if not is_num(v) and v.op not in ("+", "list"):
            MAT.add(v)
        return v

    def atoms(self, t):
        for m, c in nf._terms(t).items():
            yield m, c

    def dot(self, a, b):
        """matrix product: distributes over sums; numbers and declared scalars come out"""
        a, b = self.unlist(a), self.unlist(b)
        if a is ZERO or b is ZERO:
            return ZERO
        if a.op == "ite":
            return ite(a.args[0], self.dot(a.args[1], b), self.dot(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], self.dot(a, b.args[1]), self.dot(a, b.args[2]))
        if is_num(a) or is_num(b):
            return mul(a, b)
        res = []
        for ma, ca in self.atoms(a):
            for mb, cb in self.atoms(b):
                sc = [num(ca * cb)]
                fa, fb = [], []
                for m, f in ((ma, fa), (mb, fb)):
                    for x, ex in m:
                        if (self.scal(x) or x.op == "fun" or x.op == "P") or ex < 0:
                            sc.append(power(x, num(ex)))
                        else:
                            f.append(power(x, num(ex)))
                if not fa or not fb:
                    res.append(mul(*sc, *fa, *fb))
                    continue
                fs = []
                for f in (mul(*fa), mul(*fb)):
                    if f.op == "mm":
                        fs.extend(f.args[0])
                    elif f.op == "eye":
                        continue
                    else:
                        fs.append(f)
                if not fs:
                    res.append(mul(*sc, mk("eye")))
                else:
                    res.append(mul(*sc, mk("mm", tuple(fs)) if len(fs) > 1 else fs[0]))
        return add(*res)

    def unlist(self, v):
        if v.op == "list":
            if all(x.op == "list" for x in v.args[0]) and v.args[0]:
                return mk("vec", tuple(mk("vec", x.args[0]) for x in v.args[0]))
            return mk("vec", v.args[0])
        return v

    # -------------------------------------------------------------- calls
    def dotted(self, f):
        if isinstance(f, ast.Name):
            l = self.loc(f) if f.id not in self.frames[-1].env else None
            if l is not None and l.op == "mod":
                return self.canonmod(l.args[0])
            return f.id if l is not None or f.id not in self.frames[-1].env else None
        if isinstance(f, ast.Attribute):
            b = self.dotted(f.value)
            return b + "." + f.attr if b else None
        return None

    @staticmethod
    def canonmod(n):
        for a, b in (("numpy", "np"), ("pinocchio", "pin"), ("pinocchio.utils", "pin")):
            if n == a or n.startswith(a + "."):
                n = b + n[len(a):]
        return n

    def args(self, e):
        vs = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(a.value)
                if v.op in ("list", "vec"):
                    vs.extend(v.args[0])
                else:
                    vs.append(mk("star", v))
            else:
                vs.append(self.val(a))
        kw = {}
        for k in e.keywords:
            kw[k.arg or "**"] = self.val(k.value)
        return vs, kw

    def e_Call(self, e):
        f = e.func
        name = self.dotted(f)
        # handlers by dotted name or by method name
        for k in ([name] if name else []) + ([("." + f.attr + "()")] if isinstance(f, ast.Attribute) else []):
            h = self.handlers.get(k)
            if h is not None:
                r = h(self, e, name)
                if r is not NotImplemented:
                    return r
        if name is not None:
            if self.ignore(name) or name == "print":
                for a in e.args:
                    pass
                return mk("none")
            r = self.libcall(e, name)
            if r is not None:
                return r
        if isinstance(f, ast.Name):
            fr = self.frames[-1]
            l = self.loc(f)
            v = self.read(l) if l.op == "l" else l
            if v.op == "lam":
                return self.call_lam(v, e)
            if v.op == "fn" and v.args[0] in fr.mod.fns and not self.opaque(v.args[0], v.args[0]):
                vs, kw = self.args_loc(e)
                return self.inline_py(fr.mod, fr.mod.fns[v.args[0]], None, None, vs, kw, e.lineno)
            if v.op == "mod" and v.args[0].rsplit(".", 1)[-1] in self.ext:
                m = self.ext[v.args[0].rsplit(".", 1)[-1]]
                n = v.args[0].rsplit(".", 1)[-1]
                if n in m.fns and not self.opaque(n, n):
                    vs, kw = self.args_loc(e)
                    return self.inline_py(m, m.fns[n], None, None, vs, kw, e.lineno)
            nm = name or f.id
            vs, kw = self.args(e)
            if f.id in fr.env and v.op not in ("mod", "cls", "fn", "lam"):
                return self.pycall("icall", v, vs, kw, e.lineno)
            return self.pycall(nm, None, vs, kw, e.lineno)
        if isinstance(f, ast.Attribute):
            fr = self.frames[-1]
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                vs, kw = self.args_loc(e)
                c = fr.mod.classes.get(fr.cls)
                for b in (c.bases if c else []):
                    bn = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
                    m = fr.mod.method(bn, f.attr) if bn else None
                    if m is not None:
                        return self.inline_py(fr.mod, m, bn, fr.this, vs, kw, e.lineno)
                return self.pycall("super." + f.attr, THIS, vs, kw, e.lineno)
            bl = self.loc(f.value)
            bv = self.read(bl) if bl.op in ("l", "f", "i", "sym") else bl
            if bl.op in ("mod",) or bv.op == "mod":
                pass
            if bv is THIS and fr.cls and not self.opaque(f.attr, f.attr):
                m = fr.mod.method(fr.cls, f.attr)
                if m is not None:
                    vs, kw = self.args_loc(e)
                    return self.inline_py(fr.mod, m, fr.cls, THIS, vs, kw, e.lineno)
            if bv.op == "cls":
                m = fr.mod.method(bv.args[0], f.attr)
                if m is not None:
                    vs, kw = self.args_loc(e)
                    return self.inline_py(fr.mod, m, bv.args[0], vs[0] if vs else None, vs[1:], kw, e.lineno)
            return self.method(e, f.attr, bl, bv)
        fv = self.val(f)
        if fv.op == "lam":
            return self.call_lam(fv, e)
        vs, kw = self.args(e)
        return self.pycall("icall", fv, vs, kw, e.lineno)

    def args_loc(self, e):
        vs = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(a.value)
                vs.extend(v.args[0] if v.op in ("list", "vec") else [mk("star", v)])
            elif isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
                vs.append(self.loc(a))
            else:
                vs.append(self.val(a))
        kw = {k.arg or "**": (self.loc(k.value) if isinstance(k.value, (ast.Name, ast.Attribute, ast.Subscript)) else self.val(k.value)) for k in e.keywords}
        return vs, kw

    def inline_py(self, mod, node, cls, this, vs, kw, line):
        key = (mod.rel, cls, node.name)
        if self.stack.count(key) >= 2 or len(self.frames) >= self.MAXDEPTH:
            vals = [self.read(v) if v.op in ("l", "f", "i", "sym") else v for v in vs]
            return self.pycall(node.name, this, vals, kw, line)
        fr = PyFrame({"name": (cls + "." if cls else "") + node.name, "file": mod.rel, "retref": "", "params": []}, this, mod, cls)
        fr.mut = mutated_names(node)
        ps = node.args.posonlyargs + node.args.args
        vs = list(vs)
        if cls and ps and ps[0].arg == "self":
            fr.env["self"] = this
            ps = ps[1:]
        ds = node.args.defaults
        dmap = dict(zip([p.arg for p in (node.args.posonlyargs + node.args.args)][-len(ds):] if ds else [], ds))
        for p, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                dmap[p.arg] = d
        self.frames.append(fr)
        dv = {k: self.val(d) for k, d in dmap.items()}
        self.frames.pop()
        for k, p in enumerate(ps + node.args.kwonlyargs):
            if k < len(vs) and p in ps:
                v = vs[k]
            elif p.arg in kw:
                v = kw[p.arg]
            elif p.arg in dv:
                v = dv[p.arg]
            else:
                v = mk("missing", p.arg)
            if v.op == "l" or (v.op in ("f", "i", "sym") and p.arg in fr.mut and not self.scal(v)):
                if p.arg in fr.mut:
                    fr.env[p.arg] = v
                    continue
                v = self.read(v)
            elif v.op in ("f", "i", "sym"):
                v = self.read(v)
            self.bindlocal(fr, p.arg, v)
        if node.args.vararg is not None:
            self.bindlocal(fr, node.args.vararg.arg, mk("list", tuple(self.read(v) if v.op in ("l", "f", "i", "sym") else v for v in vs[len(ps):])))
        self.stack.append(key)
        self.inlined.add("%s:%s" % (mod.rel, fr.fn["name"]))
        r = self.enter(fr, node.body)
        self.stack.pop()
        return r

    def call_lam(self, v, e):
        node, frs = LAMS[v.args[0]]
        vs, kw = self.args_loc(e)
        return self.call_lam_v(v, vs, kw, e.lineno)

    def call_lam_v(self, v, vs, kw, line):
        node, frs = LAMS[v.args[0]]
        f0 = frs[-1]
        fr = PyFrame({"name": "lambda", "file": self.file, "retref": "", "params": []}, f0.this, f0.mod, f0.cls)
        for f in frs:
            fr.env.update(f.env)
        body = [ast.copy_location(ast.Return(node.body), node.body)] if isinstance(node, ast.Lambda) else node.body
        fr.mut = mutated_names(node)
        for p, x in zip(node.args.args, vs):
            if x.op in ("l", "f", "i", "sym") and p.arg in fr.mut:
                fr.env[p.arg] = x
            else:
                self.bindlocal(fr, p.arg, self.read(x) if x.op in ("l", "f", "i", "sym") else x)
        for p, d in zip(node.args.args[len(node.args.args) - len(node.args.defaults):], node.args.defaults):
            i = node.args.args.index(p)
            if i >= len(vs):
                self.bindlocal(fr, p.arg, kw.get(p.arg) or self.val(d))
        for st in body:
            ast.fix_missing_locations(st)
        return self.enter(fr, body)

    def pycall(self, name, recv, vs, kw, line):
        a = list(vs) + [mk("kw", k, v) for k, v in sorted(kw.items())]
        t = mk("c", name, recv if recv is not None else mk("none"), tuple(a))
        if not self.ispure(name, recv):
            self.emit("call", recv, t, line)
        return t

    def ispure(self, name, recv):
        if self.pure(name):
            return True
        if recv is None:
            h = name.split(".")[0]
            if any(name.startswith(i) for i in IMPUREFN):
                return False
            if h in ("pin", "se3", "pinocchio") and name.split(".")[-1] in IMPUREPIN:
                return False
            return h in PUREMOD or name in CONST_FN
        return name in PUREMETH

    def method(self, e, name, bl, bv):
        if bv.op == "mod":
            vs, kw = self.args(e)
            return self.pycall(self.canonmod(bv.args[0]) + "." + name, None, vs, kw, e.lineno)
        if name == "append" and len(e.args) == 1:
            v = self.val(e.args[0])
            if is_local(bl):
                cur = self.read(bl)
                if cur.op == "list" and not self.loops:
                    self.write(bl, mk("list", cur.args[0] + (v,)), e.lineno)
                else:
                    self.write(bl, mk("append", cur, v), e.lineno)
            elif bl.op in ("f", "i", "sym"):
                self.emit("push", bl, v, e.lineno)
            return mk("none")
        if name == "extend" and len(e.args) == 1:
            v = self.val(e.args[0])
            if is_local(bl):
                cur = self.read(bl)
                if cur.op == "list" and v.op == "list":
                    self.write(bl, mk("list", cur.args[0] + v.args[0]), e.lineno)
                else:
                    self.write(bl, self.concat(cur, v), e.lineno)
                return mk("none")
        vs, kw = self.args(e)
        if name == "fill" and len(vs) == 1:
            self.write(bl, mul(vs[0], mk("ones")) if vs[0] is not ZERO else ZERO, e.lineno)
            return mk("none")
        if name == "copy" and not vs:
            return bv
        if name == "dot" and len(vs) == 1:
            return self.dot(bv, vs[0])
        if name == "transpose" and not vs:
            return self.tr(bv)
        if name in ("reshape", "astype", "flatten", "ravel", "squeeze") and name in ("astype", "flatten", "ravel", "squeeze"):
            return bv
        if name == "format":
            return mk("c", "format", bv, tuple(vs) + tuple(mk("kw", k, v) for k, v in sorted(kw.items())))
        if name in ("any", "all") and not vs:
            return self.quant(name, bv)
        if name in ("sum", "min", "max", "mean") and not vs and not kw:
            return self.libf("np." + name, [bv], kw) or mk("c", name, bv, ())
        h = self.pycall(name, bv, vs, kw, e.lineno)
        if name in MUT and bl.op in ("l", "f", "i", "sym"):
            if is_local(bl):
                self.write(bl, mk("after", h, bv), e.lineno)
        return h

    @staticmethod
    def concat(a, b):
        """appending a list display is appending its elements"""
        if b.op == "list" and not (a.op == "list" and not a.args[0]):
            for x in b.args[0]:
                a = mk("append", a, x)
            return a
        return mk("concat", a, b)

    def tr(self, v):
        v = self.unlist(v)
        if self.vec1(v):
            return v
        if v.op == "+" or is_num(v):
            r = []
            for m, c in self.atoms(v):
                sc, fs = [num(c)], []
                for x, ex in m:
                    (sc if self.scal(x) or ex < 0 or x.op == "fun" else fs).append(power(x, num(ex)))
                if len(fs) == 1:
                    r.append(mul(*sc, self.tr1(fs[0])))
                else:
                    r.append(mul(*sc, *[self.tr1(f) for f in fs]))
            return add(*r)
        return self.tr1(v)

    def tr1(self, t):
        if t.op == "mm":
            out = self.tr1(t.args[0][-1])
            for x in reversed(t.args[0][:-1]):
                out = self.dot(out, self.tr1(x))
            return out
        if t.op in ("eye", "diag") or is_num(t):
            return t
        if t.op == "T":
            return t.args[0]
        if t.op == "vec" and t.args[0] and all(x.op == "vec" and len(x.args[0]) == len(t.args[0][0].args[0]) for x in t.args[0]):
            n = len(t.args[0][0].args[0])
            return mk("vec", tuple(mk("vec", tuple(r.args[0][k] for r in t.args[0])) for k in range(n)))
        return mk("T", t)

    def quant(self, name, v):
        """np.all / np.any of an (elementwise) boolean value"""
        if v.op == "comp" and len(v.args) == 2 and v.args[1].op not in ("star", "maybe"):
            f = truth(v.args[1])
            ex = lambda g: boolt(bvar(mk("exists", v.args[0], boolt(g))))
            return ex(f) if name == "any" else boolt(bnot(ex(bnot(f)).args[0]))
        if v.op == "b":
            f = v.args[0]
            at = bsupport(f)
            # all(not X) <=> not any(X)
            if len(at) == 1 and f != bvar(at[0]):
                other = "any" if name == "all" else "all"
                return boolt(bnot(bvar(mk("q", other, boolt(bvar(at[0]))))))
            return boolt(bvar(mk("q", name, v))) if f not in (T, F) else v
        if v.op in ("list", "vec"):
            fs = [truth(x) for x in v.args[0]]
            return boolt(band(*fs) if name == "all" else bor(*fs))
        return boolt(bvar(mk("q", name, boolt(truth(v)))))

    def libcall(self, e, name):
        if name.startswith("np.") or name.startswith("math.") or name in ("float", "abs", "len", "min", "max", "sum", "list", "tuple", "bool", "round", "zero", "eye", "int", "any", "all", "np") or name.startswith("pin.") or name in ("copy", "deepcopy", "copy.copy", "copy.deepcopy"):
            if name in self.frames[-1].mod.fns:
                return None
            vs, kw = self.args(e)
            return self.libf(name, vs, kw)
        return None

    def libf(self, name, vs, kw):
        n = name.split(".", 1)[1] if name.startswith(("np.", "math.")) else name
        u = self.unlist
        if n in ("dot", "matmul") and len(vs) == 2:
            return self.dot(vs[0], vs[1])
        if n in ("linalg.multi_dot",) and vs and vs[0].op == "list":
            r = vs[0].args[0][0]
            for x in vs[0].args[0][1:]:
                r = self.dot(r, x)
            return r
        if n in ("array", "asarray", "matrix", "copy", "ascontiguousarray", "squeeze", "ravel", "copy.copy", "copy.deepcopy", "deepcopy", "asmatrix", "array_str") and vs:
            return u(vs[0])
        if n in ("float",) and len(vs) == 1:
            return vs[0]
        if n in ("list", "tuple") and len(vs) <= 1:
            return vs[0] if vs else mk("list", ())
        if n in ("zeros", "zeros_like", "zero", "pin.zero", "pin.utils.zero", "empty") and vs:
            sh = vs[0].args[0] if vs[0].op == "list" else (vs[0],)
            if n == "zeros_like":
                return mk("zeros", (mk("shapeof", vs[0]),))
            return mk("zeros" if n != "empty" else "empty", tuple(sh))
        if n == "ones" and vs:
            return mk("ones") if False else mk("onesv", vs[0])
        if n in ("eye", "identity", "pin.eye", "pin.utils.eye") and vs:
            return mk("eye")
        if n == "transpose" and len(vs) == 1:
            return self.tr(vs[0])
        if n in ("linalg.inv", "inv"):
            return self.matinv(vs[0])
        if n == "linalg.norm" and len(vs) == 1:
            v = u(vs[0])
            return fun("norm", self.abslead(v))
        if n == "cross" and len(vs) == 2:
            return self.bil("cross", u(vs[0]), u(vs[1]), -1)
        if n in ("sqrt", "sin", "cos", "tan", "arctan2", "atan2", "arccos", "acos", "arcsin", "asin", "exp", "log", "floor", "ceil", "abs", "fabs", "absolute"):
            m = {"arctan2": "atan2", "arccos": "acos", "arcsin": "asin", "fabs": "abs", "absolute": "abs", "floor": "floorf", "ceil": "ceilf"}.get(n, n)
            return fun(m, *vs)
        if n in ("power", "pow") and len(vs) == 2:
            return power(vs[0], vs[1])
        if n == "square":
            return mul(vs[0], vs[0])
        if n in ("min", "max", "amin", "amax") and name not in ("np.min", "np.max", "np.amin", "np.amax") and len(vs) >= 2:
            return fun(n, *vs)
        if n in ("minimum", "maximum") and len(vs) == 2:
            return fun(n[:3], *vs)
        if n in ("min", "max") and len(vs) == 1 and vs[0].op == "list" and not kw:
            return fun(n, *vs[0].args[0]) if len(vs[0].args[0]) > 1 else vs[0].args[0][0]
        if n == "len" and len(vs) == 1:
            return self.lenof(vs[0])
        if n in ("int",) and len(vs) == 1:
            if is_num(vs[0]):
                import math
                return num(math.trunc(vs[0].args[0]))
            if is_int(vs[0]):
                return vs[0]
            r = mk("floor", vs[0])
            INT.add(r)
            return r
        if n == "sum" and len(vs) == 1 and not kw:
            v = vs[0]
            if v.op in ("list", "vec") and not any(x.op in ("list", "vec", "star", "maybe") for x in v.args[0]):
                return add(*v.args[0])
        if n in ("any", "all") and len(vs) == 1 and not kw:
            return self.quant(n, vs[0])
        if n in ("hstack", "concatenate", "vstack", "r_", "append", "column_stack", "stack", "block") and vs:
            return mk("c", "np." + ("concatenate" if n == "hstack_" else n), mk("none"), tuple(vs) + tuple(mk("kw", k, v) for k, v in sorted(kw.items())))
        if n == "diag" and len(vs) == 1:
            return mk("diag", u(vs[0]))
        if n == "outer" and len(vs) == 2:
            return mk("c", "np.outer", mk("none"), (u(vs[0]), u(vs[1])))
        if n == "pi":
            return mk("sym", "pi")
        if n in ("bool",) and len(vs) == 1:
            return boolt(truth(vs[0]))
        if n == "clip" and len(vs) == 3:
            return fun("min", fun("max", vs[0], vs[1]), vs[2])
        return None

    def lenof(self, v):
        if v.op in ("list", "vec") and not any(x.op in ("star", "maybe") for x in v.args[0]):
            return num(len(v.args[0]))
        if v.op == "str":
            return num(len(v.args[0]))
        if v.op == "zeros" and len(v.args[0]) >= 1 and v.args[0][0].op != "shapeof":
            return v.args[0][0]
        if v.op == "comp":
            return v.args[0]
        r = mk("len", v)
        return r

    def abslead(self, v):
        """norm(v) = norm(-v)"""
        t = nf._terms(v)
        if t and v.op in ("+",):
            m0 = sorted(t, key=lambda m: tuple((a.dig, e) for a, e in m))[0]
            if t[m0] < 0:
                return neg(v)
        return v

    def matinv(self, v):
        if v.op == "matinv":
            return v.args[0]
        if v.op == "eye":
            return v
        return mk("matinv", v)

    def bil(self, op, a, b, sym):
        res = []
        for ma, ca in self.atoms(a):
            for mb, cb in self.atoms(b):
                sc = [num(ca * cb)]
                fa, fb = [], []
                for m, f in ((ma, fa), (mb, fb)):
                    for x, ex in m:
                        (sc if self.scal(x) or ex < 0 or x.op == "fun" else f).append(power(x, num(ex)))
                x, y = mul(*fa) if fa else ONE, mul(*fb) if fb else ONE
                if sym == -1 and x is y:
                    continue
                if y.dig < x.dig:
                    x, y = y, x
                    if sym == -1:
                        sc.append(num(-1))
                res.append(mul(*sc, mk(op, x, y)))
        return add(*res) if res else ZERO


def v_height(v):
    bs = [x.args[0] for x in subterms(v.args[1]) if x.op == "B"]
    return max(bs) if bs else -1
