"""Sensitivity and quietness of the Python checks: seeded edits of the syntax tree, analysed in process.

  tools/pymut.py checks.python:lqr_check [mut|ref] [-k substr] [-n max] [-v]
mut: edits that change what the code does (some are equivalent by accident) - should be reported
ref: edits that keep it - must stay quiet"""
import ast, copy, importlib, os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kda import py
from kda.core import Ctx

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def sites(fn):
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        yield n, f, i, x
            elif isinstance(v, ast.AST):
                yield n, f, None, v


def mutants(fn):
    """(description, mutated copy)"""
    def put(path, new):
        t = copy.deepcopy(fn)
        for (p, f, i, x), (q, g, j, y) in zip(sites(fn), sites(t)):
            if x is path:
                if j is None:
                    setattr(q, g, new)
                else:
                    getattr(q, g)[j] = new
                return ast.fix_missing_locations(t)
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) else None
    for p, f, i, x in list(sites(fn)):
        if x is doc or not hasattr(x, "lineno"):
            continue
        C = lambda **k: ast.copy_location(type(x)(**{**{a: getattr(x, a) for a in x._fields}, **k}), x)
        at = "%d: %s" % (x.lineno, ast.unparse(x)[:70])
        if isinstance(x, ast.BinOp) and type(x.op) in BIN:
            yield "op " + at, put(x, C(op=BIN[type(x.op)]()))
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Sub, ast.Div)):
            yield "swap " + at, put(x, C(left=x.right, right=x.left))
        if isinstance(x, ast.AugAssign) and type(x.op) in BIN:
            yield "augop " + at, put(x, C(op=BIN[type(x.op)]()))
        if isinstance(x, ast.AugAssign):
            yield "aug->assign " + at, put(x, ast.copy_location(ast.Assign(targets=[x.target], value=x.value), x))
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
            if f != "dims":
                yield "const+1 " + at, put(x, C(value=x.value + 1))
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            yield "flip " + at, put(x, C(value=not x.value))
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and x is not doc and not isinstance(p, ast.Expr):
            yield "str " + at, put(x, C(value=x.value + "_"))
        if isinstance(x, ast.Compare) and type(x.ops[0]) in CMP:
            yield "cmp " + at, put(x, C(ops=[CMP[type(x.ops[0])]()] + x.ops[1:]))
        if isinstance(x, ast.BoolOp):
            yield "bool " + at, put(x, C(op=ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for k in range(len(x.values)):
                if len(x.values) > 1:
                    vs = x.values[:k] + x.values[k + 1:]
                    yield "dropcond%d " % k + at, put(x, vs[0] if len(vs) == 1 else C(values=vs))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.Not)):
            yield "unneg " + at, put(x, x.operand)
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            yield "negcond " + at, put(x.test, ast.copy_location(ast.UnaryOp(ast.Not(), x.test), x.test))
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.For, ast.If, ast.Delete)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
            if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "print"):
                yield "del " + at, put(x, ast.copy_location(ast.Pass(), x))
        if isinstance(x, ast.Call) and len(x.args) >= 2:
            for k in range(len(x.args) - 1):
                if ast.dump(x.args[k]) != ast.dump(x.args[k + 1]):
                    a = list(x.args)
                    a[k], a[k + 1] = a[k + 1], a[k]
                    yield "swaparg%d " % k + at, put(x, C(args=a))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "copy" and not x.args:
            yield "nocopy " + at, put(x, x.func.value)
        if isinstance(x, ast.Return) and x.value is not None:
            yield "retnone " + at, put(x, C(value=ast.copy_location(ast.Constant(None), x)))
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            yield "attr " + at, put(x, C(attr=x.attr + "_x"))
        if isinstance(x, ast.Break):
            yield "nobreak " + at, put(x, ast.copy_location(ast.Pass(), x))
        if isinstance(x, ast.Continue):
            yield "nocontinue " + at, put(x, ast.copy_location(ast.Pass(), x))
        if f == "body" and isinstance(p, (ast.For, ast.If)) and i == len(p.body) - 1 and i > 0 and hasattr(p, "body"):
            t = copy.deepcopy(fn)
            for a, b in zip(ast.walk(fn), ast.walk(t)):
                if a is p:
                    s = b.body.pop()
                    for q in ast.walk(t):
                        for g in ("body", "orelse"):
                            L = getattr(q, g, None)
                            if isinstance(L, list) and b in L:
                                L.insert(L.index(b) + 1, s)
                                break
            yield "outdent " + at, ast.fix_missing_locations(t)


def assigned(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.arg):
            out.add(n.arg)
    return out


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            n.id = self.m[n.id]
        return n


def refactors(fn):
    for k in range(1):
        t = copy.deepcopy(fn)
        args = {a.arg for a in ast.walk(t) if isinstance(a, ast.arg)}
        names = assigned(t) - args
        if names:
            yield "rename locals", ast.fix_missing_locations(Ren({n: "zz_" + n[::-1] for n in names}).visit(t))
    t = copy.deepcopy(fn)
    done = False
    for n in ast.walk(t):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            done = True
    if done:
        yield "swap branches", ast.fix_missing_locations(t)
    t = copy.deepcopy(fn)
    cnt = [0]
    for n in ast.walk(t):
        for f in ("body", "orelse"):
            L = getattr(n, f, None)
            if isinstance(L, list) and not isinstance(n, (ast.ClassDef, ast.Lambda)):
                new = []
                for s in L:
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return)) and s.value is not None and isinstance(s.value, (ast.BinOp, ast.Call)):
                        c = [x for x in ast.walk(s.value) if isinstance(x, (ast.BinOp,)) and x is not s.value]
                        if c and not any(isinstance(y, (ast.Lambda, ast.ListComp, ast.IfExp)) for y in ast.walk(s.value)):
                            x = c[0]
                            nm = "tmp_%d" % cnt[0]
                            cnt[0] += 1
                            new.append(ast.Assign(targets=[ast.Name(nm, ast.Store())], value=copy.deepcopy(x)))

                            class R(ast.NodeTransformer):
                                def visit(self, y):
                                    if y is x:
                                        return ast.Name(nm, ast.Load())
                                    return self.generic_visit(y)
                            s.value = R().visit(s.value)
                    new.append(s)
                setattr(n, f, new)
    if cnt[0]:
        yield "hoist subexpressions", ast.fix_missing_locations(t)
    t = copy.deepcopy(fn)
    for n in ast.walk(t):
        for f in ("body", "orelse"):
            L = getattr(n, f, None)
            if isinstance(L, list) and L and not isinstance(n, (ast.ClassDef, ast.Lambda)):
                setattr(n, f, [y for s in L for y in (ast.Assign(targets=[ast.Name("unused_", ast.Store())], value=ast.Constant(0)), s)])
    yield "no-op statements", ast.fix_missing_locations(t)
    t = copy.deepcopy(fn)
    done = False
    for n in ast.walk(t):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and not any(isinstance(y, (ast.Constant,)) and isinstance(y.value, str) or isinstance(y, (ast.List, ast.Tuple, ast.ListComp)) for y in ast.walk(n)):
            n.left, n.right = n.right, n.left
            done = True
    if done:
        yield "commute sums", ast.fix_missing_locations(t)
    t = copy.deepcopy(fn)
    done = False

    class W(ast.NodeTransformer):
        def visit_For(self, n):
            nonlocal done
            self.generic_visit(n)
            if isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) <= 2 and not n.orelse and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n)):
                v = n.target.id
                if v in {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                    return n
                lo = n.iter.args[0] if len(n.iter.args) == 2 else ast.Constant(0)
                done = True
                return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=lo),
                        ast.While(test=ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [n.iter.args[-1]]),
                                  body=n.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], orelse=[])]
            return n
    t = W().visit(t)
    if done:
        yield "for to while", ast.fix_missing_locations(t)
    t = copy.deepcopy(fn)
    done = False
    for n in ast.walk(t):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)) and False:
            done = True
    # call extraction: the tail of the body becomes a nested helper
    if fn.args.args and fn.args.args[0].arg == "self" and len(fn.body) > 2:
        pass


def main():
    a = sys.argv[1:]
    chk = a.pop(0)
    mode = a.pop(0) if a and a[0] in ("mut", "ref") else "mut"
    sub, mx, v = None, None, False
    while a:
        x = a.pop(0)
        if x == "-k":
            sub = a.pop(0)
        elif x == "-n":
            mx = int(a.pop(0))
        elif x == "-v":
            v = True
    m, f = chk.split(":")
    check = getattr(importlib.import_module(m), f)
    orig = py.load
    cache = {}
    used = []

    def load0(rel):
        if rel not in cache:
            cache[rel] = orig(rel)
        return cache[rel]
    from kda import pyref
    py.load = load0
    ctx = Ctx("X", "quick", 1)
    check(ctx)
    base = {(o[0], o[1]) for o in ctx.obs}
    print("baseline", len(ctx.obs), "not holding", [o[0] for o in ctx.obs if o[1] != "holds"])
    fnset = set(ctx.functions) if hasattr(ctx, "functions") else set(ctx.fns)
    tot, miss, und, bad = 0, [], [], []
    rnd = random.Random(1)
    for rel, mod in list(cache.items()):
        for cname, holder in [(None, mod.tree)] + [(c, n) for c, n in mod.classes.items()]:
            for node in list(holder.body):
                if not isinstance(node, ast.FunctionDef):
                    continue
                q = (cname + "." if cname else "") + node.name
                if "%s::%s" % (rel, q) not in fnset or (sub and sub not in q):
                    continue
                L = list((mutants if mode == "mut" else refactors)(node))
                if mx and len(L) > mx:
                    L = rnd.sample(L, mx)
                for d, t in L:
                    if t is None:
                        continue
                    i = holder.body.index(node)
                    holder.body[i] = t
                    if cname is None:
                        mod.fns[node.name] = t
                    try:
                        c = Ctx("X", "quick", 1)
                        c.only_fn = q
                        try:
                            check(c)
                            st = [o for o in c.obs if (o[0], o[1]) not in base and o[1] != "holds"]
                        except Exception as e:
                            st = [("crash", "crash", "", repr(e)[:200])]
                    finally:
                        holder.body[i] = node
                        if cname is None:
                            mod.fns[node.name] = node
                    tot += 1
                    kinds = {o[1] for o in st}
                    if mode == "mut":
                        if "violated" in kinds:
                            continue
                        (und if "undecided" in kinds else miss if not kinds else bad).append((q, d, [o[3][:160] for o in st][:1]))
                    else:
                        if not kinds:
                            continue
                        (bad if kinds & {"violated", "crash"} else und).append((q, d, [o[3][:300] for o in st][:2]))
    print("edits", tot, "| missed" if mode == "mut" else "| alarms", len(miss) if mode == "mut" else len(bad), "| undecided", len(und), "| crashes" if mode == "mut" else "", len(bad) if mode == "mut" else "")
    for x in (miss if mode == "mut" else []) + bad + (und if v else []):
        print("  ", x[0], "|", x[1], "|", *x[2])


main()
