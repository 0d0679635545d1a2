#!/usr/bin/env python3
"""Development aid (no registered check uses it): behaviour-preserving rewrites of the whole source tree;
every alarm on a rewritten tree is a false alarm.
  refac.py [transformation pattern] [-k] [-t]      -k keep the tree in /tmp/refac/<name>;  -t run the stable tests on it"""
import ast, copy, keyword, warnings, builtins, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
warnings.simplefilter('ignore')
BUILTINS = set(dir(builtins))
L, S = ast.Load(), ast.Store()


def name(n, ctx=None): return ast.Name(n, ctx or ast.Load())


def own_nodes(fn):
    """nodes of a function without nested functions, lambdas, comprehensions"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                st.append(c)


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names: out.add((x.asname or x.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
    return out


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef): yield n


def bodies(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield n, f, b


def infunc_bodies(tree):
    for fn in functions(tree):
        for n, f, b in bodies(fn): yield fn, n, f, b


def is_gen(fn): return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn))


def uses_super(fn): return any(isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals') for n in ast.walk(fn))


T = {}
CNT = [0]


def tr(f): T[f.__name__] = f; return f


class Anf:
    """name every operand of a compound expression"""
    def __init__(self, every=True): self.n, self.every = 0, every
    def tmp(self): self.n += 1; return f'tmpv{self.n}'
    def ex(self, e, pre, top=False):
        if isinstance(e, (ast.Constant, ast.Name, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.BoolOp,
                          ast.IfExp, ast.JoinedStr, ast.Starred, ast.Yield, ast.YieldFrom, ast.Slice)): return e
        if isinstance(e, ast.BinOp):
            e.left = self.ex(e.left, pre); e.right = self.ex(e.right, pre)
        elif isinstance(e, ast.UnaryOp):
            e.operand = self.ex(e.operand, pre)
            if isinstance(e.operand, ast.Constant): return e
        elif isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals'): return e
            if isinstance(e.func, ast.Attribute) and not isinstance(e.func.value, (ast.Name, ast.Attribute)):
                e.func.value = self.ex(e.func.value, pre)
            e.args = [self.ex(a, pre) for a in e.args]
            for k in e.keywords: k.value = self.ex(k.value, pre)
        elif isinstance(e, ast.Subscript):
            e.value = self.ex(e.value, pre)
            if not isinstance(e.slice, (ast.Slice, ast.Tuple)): e.slice = self.ex(e.slice, pre)
        elif isinstance(e, ast.Attribute):
            if not isinstance(e.value, (ast.Name, ast.Attribute)): e.value = self.ex(e.value, pre)
            return e
        elif isinstance(e, ast.Compare):
            if len(e.ops) > 1: return e
            e.left = self.ex(e.left, pre); e.comparators = [self.ex(x, pre) for x in e.comparators]
        elif isinstance(e, (ast.Tuple, ast.List)):
            e.elts = [self.ex(x, pre) for x in e.elts]
        else: return e
        if top: return e
        t = self.tmp()
        pre.append(ast.Assign([name(t, ast.Store())], e))
        return name(t)


@tr
def anf(tree):
    a = Anf()
    for fn, n, f, b in infunc_bodies(tree):
        out = []
        for s in b:
            pre = []
            if isinstance(s, ast.Return) and s.value is not None: s.value = a.ex(s.value, pre)
            elif isinstance(s, ast.Assign): s.value = a.ex(s.value, pre, True)
            elif isinstance(s, ast.AugAssign): s.value = a.ex(s.value, pre)
            elif isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant): s.value = a.ex(s.value, pre, True)
            elif isinstance(s, ast.If): s.test = a.ex(s.test, pre)
            elif isinstance(s, ast.For): s.iter = a.ex(s.iter, pre)
            out += pre + [s]
        b[:] = out


@tr
def rename(tree):
    for fn in [f for f in functions(tree)]:
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)): continue
        if uses_super(fn) and any(isinstance(n, ast.Name) and n.id == 'locals' for n in ast.walk(fn)): continue
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg: params.add(a.vararg.arg)
        if a.kwarg: params.add(a.kwarg.arg)
        st = {n.id for n in own_nodes(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        inner = {n.name for n in own_nodes(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        st -= inner
        # names also assigned/param in nested scopes stay
        for x in ast.walk(fn):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                aa = x.args
                st -= {y.arg for y in aa.args + aa.kwonlyargs + aa.posonlyargs}
                if isinstance(x, ast.FunctionDef):
                    st -= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in st: x.id = 'rn_' + x.id


@tr
def swapif(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test) if not (isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not)) else n.test.operand
            n.body, n.orelse = n.orelse, n.body


def ends(b): return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


@tr
def elsereturn(tree):
    """if c: ..return;  rest  ->  if c: ..return; else: rest"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


@tr
def guardreturn(tree):
    """if c: A(return) else: B -> if c: A ; B"""
    for fn, n, f, b in reversed(list(infunc_bodies(tree))):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.If) and s.orelse and ends(s.body) and i == len(b) - 1:
                rest = s.orelse
                s.orelse = []
                b += rest


@tr
def ifexp(tree):
    """if c: x = a else: x = b -> x = a if c else b;  if c: return a else: return b"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
                p, q = s.body[0], s.orelse[0]
                if isinstance(p, ast.Return) and isinstance(q, ast.Return) and p.value and q.value:
                    b[i] = ast.Return(ast.IfExp(s.test, p.value, q.value))
                elif isinstance(p, ast.Assign) and isinstance(q, ast.Assign) and ast.dump(p.targets[0]) == ast.dump(q.targets[0]) and len(p.targets) == len(q.targets) == 1:
                    b[i] = ast.Assign(p.targets, ast.IfExp(s.test, p.value, q.value))


@tr
def unifexp(tree):
    for fn, n, f, b in list(infunc_bodies(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                v = s.value
                b[i] = ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                b[i] = ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])


@tr
def nestand(tree):
    for fn, n, f, b in list(infunc_bodies(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                vs = s.test.values
                cur = s.body
                for v in reversed(vs): cur = [ast.If(v, cur, [])]
                b[i] = cur[0]


@tr
def demorgan(tree):
    class X(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
    # value of and/or is used only as truth in tests
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)): n.test = X().visit(n.test)


@tr
def compares(tree):
    """a < b -> b > a;  x is not None -> not (x is None); a == b -> b == a; not in"""
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1:
                o = type(n.ops[0])
                if o in sw: return ast.Compare(n.comparators[0], [sw[o]()], [n.left])
                if o is ast.IsNot: return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
                if o is ast.NotIn: return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            return n
    X().visit(tree)


@tr
def arith(tree):
    """a*b -> b*a, a-b -> -b+a, a/2 -> a*0.5, x**2 -> x*x, -x -> -1*x"""
    def nonnum(e):
        return any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.MatMult)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                   for x in ast.walk(e)) or any(isinstance(x, ast.Attribute) and x.attr in ('to', 'value') or isinstance(x, ast.Name) and x.id == 'u' for x in ast.walk(e))
    class X(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if nonnum(n): return n
            if isinstance(n.op, ast.Mult): return ast.BinOp(n.right, ast.Mult(), n.left)
            if isinstance(n.op, ast.Sub): return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute, ast.Subscript)):
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.): return ast.BinOp(n.left, ast.Mult(), ast.Constant(0.5))
            return n
    for fn in functions(tree): fn.body = [X().visit(s) for s in fn.body]


@tr
def compr2loop(tree):
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            c = None
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp): c = v
            elif isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and len(v.args) >= 1 and isinstance(v.args[0], ast.ListComp): c = v.args[0]
            if c is None or len(c.generators) != 1: out.append(s); continue
            g = c.generators[0]
            k += 1
            r = f'lst{k}'
            bound = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if bound & local_names(fn): out.append(s); continue
            body = [ast.Expr(ast.Call(ast.Attribute(name(r), 'append', L), [c.elt], []))]
            for t in reversed(g.ifs): body = [ast.If(t, body, [])]
            out.append(ast.Assign([name(r, S)], ast.List([], L)))
            out.append(ast.For(g.target, g.iter, body, []))
            if v is c: s.value = name(r)
            else: v.args[0] = name(r)
            out.append(s)
        b[:] = out


@tr
def loop2compr(tree):
    for fn, n, f, b in list(infunc_bodies(tree)):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.For) \
                    and len(t.body) == 1 and isinstance(t.body[0], ast.Expr) and isinstance(t.body[0].value, ast.Call) and isinstance(t.body[0].value.func, ast.Attribute) \
                    and t.body[0].value.func.attr == 'append' and ast.dump(t.body[0].value.func.value) == ast.dump(name(s.targets[0].id)):
                b[i] = ast.Assign(s.targets, ast.ListComp(t.body[0].value.args[0], [ast.comprehension(t.target, t.iter, [], 0)]))
                b[i + 1] = ast.Pass()


@tr
def aug(tree):
    """local scalars only: x += c with constant; and x = x + 1 -> x += 1 """
    for fn, n, f, b in list(infunc_bodies(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
                # a[k] += v  ->  a[k] = a[k] + v
                t = copy.deepcopy(s.target); t.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))


@tr
def helper_expr(tree):
    """right hand sides move to module level helper functions"""
    new, k = [], 0
    for fn in list(functions(tree)):
        loc = local_names(fn)
        nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn)
        for n, f, b in list(bodies(fn)):
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(getattr(s, 'value', None), (ast.BinOp, ast.Call)):
                    v = s.value
                    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ('super', 'locals') for x in ast.walk(v)): continue
                    used = [x.id for x in ast.walk(v) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
                    cb = {x.id for x in ast.walk(v) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    ps = sorted({u for u in used if u in loc} - cb)
                    if cb & loc: continue
                    if nested and any(u not in loc and u not in BUILTINS and u not in MODN for u in used): continue
                    if any(u not in loc and u not in BUILTINS and u not in MODN and u not in cb for u in used): continue
                    if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(fn)): continue
                    # helper reads parameters that must be bound
                    k += 1
                    h = f'_helper_{k}'
                    new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(v)], [], lineno=1))
                    s.value = ast.Call(name(h), [name(p) for p in ps], [])
    # name mangling
    tree.body[:] = insert_after_imports(tree.body, new)


MODN = set()


def insert_after_imports(body, new):
    i = 0
    for j, s in enumerate(body):
        if isinstance(s, (ast.Import, ast.ImportFrom)): i = j + 1
    return body[:i] + new + body[i:]


@tr
def helper_body(tree):
    """the whole body of a method / function moves to another one"""
    def do(body):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef): do(s.body)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not is_gen(s) and not s.name.startswith('__') and len(s.body) > 1 \
                    and not s.args.vararg and not s.args.kwonlyargs:
                inner = copy.deepcopy(s)
                CNT[0] += 1; inner.name = f'_do_{CNT[0]}_' + s.name.strip('_')
                ps = [a.arg for a in s.args.args]
                inner.args.defaults = []
                meth = ps[:1] == ['self']
                if meth: fnc, a = ast.Attribute(name('self'), inner.name, L), ps[1:]
                elif body is tree.body: fnc, a = name(inner.name), ps
                else: out.append(s); continue
                kw = [ast.keyword(None, name(s.args.kwarg.arg))] if s.args.kwarg else []
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                if doc: inner.body = inner.body[1:]
                if not inner.body: out.append(s); continue
                s.body = doc + [ast.Return(ast.Call(fnc, [name(x) for x in a], kw))]
                out.append(inner)
            out.append(s)
        body[:] = out
    do(tree.body)


@tr
def helper_tail(tree):
    """the second half of each method becomes a helper method / function"""
    def do(body, top, cn=''):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef): do(s.body, False, s.name)
            if isinstance(s, ast.FunctionDef) and not is_gen(s) and len(s.body) >= 4 and not uses_super(s) and not any(isinstance(x, ast.Global) for x in ast.walk(s)) and not s.name.startswith('__') and not s.decorator_list\
                    and not any(isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef)) for x in s.body):
                h = len(s.body) // 2
                a, b = s.body[:h], s.body[h:]
                fa = ast.FunctionDef('x', s.args, a, [], lineno=1)
                loc = local_names(fa)
                # definitely assigned: params + simple top-level assigns
                defi = {x.arg for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs}
                for q in a:
                    if isinstance(q, (ast.Assign, ast.AugAssign)):
                        defi |= {x.id for x in ast.walk(q) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if s.args.vararg: defi.add(s.args.vararg.arg)
                if s.args.kwarg: defi.add(s.args.kwarg.arg)
                used = {x.id for q in b for x in ast.walk(q) if isinstance(x, ast.Name)}
                need = sorted((used & loc) - {'self'})
                if all(x in defi for x in need) and (top or (s.args.args and s.args.args[0].arg == 'self')):
                    nm = f'_tail{cn}_{s.name.strip("_")}'
                    ps = ([] if top else ['self']) + need
                    out.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), b, [], lineno=1))
                    fnc = name(nm) if top else ast.Attribute(name('self'), nm, L)
                    s.body = a + [ast.Return(ast.Call(fnc, [name(x) for x in need], []))]
            out.append(s)
        body[:] = out
    do(tree.body, True)


@tr
def noop(tree):
    for fn in functions(tree):
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(i, ast.Assign([name('_unused', S)], ast.Constant(None)))
        fn.body.insert(i, ast.Pass())
        for n, f, b in bodies(fn):
            if not ends(b): b.append(ast.Pass())


@tr
def npalias(tree):
    """np.x -> numpy.x"""
    has = False
    for s in tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name == 'numpy' and a.asname == 'np': a.asname = None; has = True
    if has:
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == 'np': n.id = 'numpy'


@tr
def fromnp(tree):
    """from numpy import <function> as np_<function>"""
    if not any(isinstance(s, ast.Import) and any(a.asname == 'np' for a in s.names) for s in tree.body): return
    used = set()
    class X(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'np' and n.attr not in ('random', 'linalg'):
                used.add(n.attr)
                return name('np_' + n.attr)
            return n
    X().visit(tree)
    if used: tree.body[:] = insert_after_imports(tree.body, [ast.ImportFrom('numpy', [ast.alias(u, 'np_' + u) for u in sorted(used)], 0)])


@tr
def dotmat(tree):
    """np.dot(a, b) -> (a).dot(b); """
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if ast.unparse(n.func) == 'np.dot' and len(n.args) == 2: return ast.Call(ast.Attribute(n.args[0], 'dot', L), [n.args[1]], [])
            return n
    X().visit(tree)


@tr
def matmul(tree):
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if ast.unparse(n.func) == 'np.dot' and len(n.args) == 2: return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
            return n
    X().visit(tree)


@tr
def methods(tree):
    """np.sum(x, ...) <-> x.sum(...) ; x.sum() -> np.sum(x); x.T -> np.transpose ; intersect.sum()"""
    M = {'sum', 'mean', 'any', 'all', 'min', 'max'}
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr in M and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'u', 'math')) and not n.args:
                return ast.Call(ast.Attribute(name('np'), n.func.attr, L), [n.func.value], n.keywords)
            return n
    if any(isinstance(s, ast.Import) and any(a.asname == 'np' for a in s.names) for s in tree.body): X().visit(tree)


@tr
def selfcache(tree):
    """self.x read in a method that never writes attributes or calls methods on self -> local"""
    for fn in functions(tree):
        if not fn.args.args or fn.args.args[0].arg != 'self' or is_gen(fn): continue
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        bad = any(isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(fn))
        bad |= any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' for n in ast.walk(fn))
        bad |= any(isinstance(n, ast.Name) and n.id == 'self' and not isinstance(getattr(n, 'par', None), ast.Attribute) for n in ast.walk(fn) if False)
        if bad: continue
        # attributes read unconditionally in the first statement
        if len(fn.body) <= i: continue
        first = fn.body[i]
        ats = set()
        if isinstance(first, (ast.Assign, ast.Return, ast.Expr)):
            for n in ast.walk(first):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load): ats.add(n.attr)
                if isinstance(n, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.ListComp, ast.GeneratorExp)): ats = set(); break
        if not ats: continue
        class X(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in ats: return name('s_' + n.attr)
                return n
        for q in fn.body[i:]: X().visit(q)
        fn.body[i:i] = [ast.Assign([name('s_' + a, S)], ast.Attribute(name('self'), a, L)) for a in sorted(ats)]


@tr
def colview(tree):
    """photons['x'][m] = v -> col = photons['x']; col[m] = v"""
    k = 0
    for fn, n, f, b in list(infunc_bodies(tree)):
        out = []
        for s in b:
            t = s.targets[0] if isinstance(s, ast.Assign) else getattr(s, 'target', None) if isinstance(s, ast.AugAssign) else None
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name):
                k += 1
                c = f'colv{k}'
                out.append(ast.Assign([name(c, S)], ast.Subscript(t.value.value, t.value.slice, L)))
                t.value = name(c)
            out.append(s)
        b[:] = out


@tr
def reorder(tree):
    """swap neighbouring assignments to different local names from pure right hand sides"""
    def pure(e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                f = ast.unparse(x.func)
                if not re.match(r'^(np\.(?!random)|len|norm_vector|h2e|e2h|float|int|range)', f): return False
            if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)): return False
        return True
    for fn, n, f, b in list(infunc_bodies(tree)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and pure(q.value) for q in (s, t)):
                rs, rt = [{x.id for x in ast.walk(q.value) if isinstance(x, ast.Name)} for q in (s, t)]
                if s.targets[0].id not in rt | {t.targets[0].id} and t.targets[0].id not in rs:
                    b[i], b[i + 1] = t, s
                    i += 1
            i += 1


@tr
def kwcall(tree):
    """positional arguments of functions in the same module -> keywords"""
    sig = {s.name: [a.arg for a in s.args.args] for s in tree.body if isinstance(s, ast.FunctionDef) and not s.args.vararg}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sig and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = sig[n.func.id]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []


@tr
def inline(tree):
    """x = e; next statement uses x once (nowhere else) -> inlined"""
    for fn in functions(tree):
        cnt = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name): cnt[x.id] = cnt.get(x.id, 0) + 1
        for n, f, b in list(bodies(fn)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and cnt.get(s.targets[0].id) == 2 \
                        and isinstance(t, (ast.Return, ast.Assign, ast.Expr)) and t.value is not None:
                    v = s.targets[0].id
                    # only evaluation order safe: no other call in t
                    uses = [x for x in ast.walk(t.value) if isinstance(x, ast.Name) and x.id == v]
                    scoped = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(t.value))
                    if len(uses) == 1 and not scoped:
                        class X(ast.NodeTransformer):
                            def visit_Name(self, n): return s.value if n.id == v else n
                        t.value = X().visit(t.value)
                        del b[i]
                        continue
                i += 1


@tr
def enumerate_(tree):
    """for i, x in enumerate(l): -> for i in range(len(l)): x = l[i]"""
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == 'enumerate' and isinstance(n.target, ast.Tuple) \
                and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and len(n.iter.args) == 1:
            l = n.iter.args[0]
            n.body.insert(0, ast.Assign([n.target.elts[1]], ast.Subscript(copy.deepcopy(l), copy.deepcopy(name(n.target.elts[0].id)), L)))
            n.iter = ast.Call(name('range'), [ast.Call(name('len'), [l], [])], [])
            n.target = n.target.elts[0]


@tr
def loopidx(tree):
    """for x in self.y: -> for ii in range(len(self.y)): x = self.y[ii]   (lists only)"""
    k = 0
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Attribute) and n.iter.attr in ('elements', 'preprocess_steps', 'postprocess_steps'):
            k += 1
            n.body.insert(0, ast.Assign([n.target], ast.Subscript(copy.deepcopy(n.iter), name(f'ii{k}'), L)))
            n.target = name(f'ii{k}', S)
            n.iter = ast.Call(name('range'), [ast.Call(name('len'), [n.iter], [])], [])


@tr
def strings(tree):
    """docstrings removed, f-strings -> format, messages changed"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            if len(n.body) > 1: n.body = n.body[1:]
            else: n.body = [ast.Pass()]
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
            n.exc.args = [ast.Constant('something else')] + n.exc.args[1:] if n.exc.args else n.exc.args


@tr
def npfun(tree):
    """np.sqrt(x) -> x**0.5, np.array([a, b]) with tuple, np.ones(n) -> np.full(n, 1.), x.copy() -> np.copy"""
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = ast.unparse(n.func)
            if f == 'np.sqrt' and len(n.args) == 1: return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
            if f == 'np.array' and len(n.args) == 1 and isinstance(n.args[0], ast.List): n.args[0] = ast.Tuple(n.args[0].elts, L)
            if f in ('np.ones', 'np.zeros') and len(n.args) == 1 and not n.keywords: return ast.Call(ast.Attribute(name('np'), 'full', L), [n.args[0], ast.Constant(1. if f == 'np.ones' else 0.)], [])
            if f == 'np.square': return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(2))
            if f == 'np.abs': return ast.Call(name('abs'), n.args, n.keywords)
            return n
    X().visit(tree)


@tr
def isnone(tree):
    """x is None -> (x is None) is True style guards: if not c: pass else: body"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        for s in b:
            if isinstance(s, ast.If) and not s.orelse:
                s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), [ast.Pass()], s.body


@tr
def dictcall(tree):
    class X(ast.NodeTransformer):
        def visit_Dict(self, n):
            self.generic_visit(n)
            if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and not keyword.iskeyword(k.value) for k in n.keys):
                return ast.Call(name('dict'), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
            return n
    X().visit(tree)


@tr
def tupleassign(tree):
    """a = x; b = y (independent) -> a, b = x, y"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], (ast.Name, ast.Attribute)) for q in (s, t)):
                ss, tt = ast.unparse(s.targets[0]), ast.unparse(t.targets[0])
                if ss not in ast.unparse(t.value) and tt not in ast.unparse(s.value) and 'self' not in ast.unparse(t.value) and ss != tt:
                    b[i] = ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], S)], ast.Tuple([s.value, t.value], L))
                    del b[i + 1]
            i += 1


@tr
def superargs(tree):
    """super() -> super(Class, self)"""
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for n in ast.walk(c):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
                    for fn in c.body:
                        if isinstance(fn, ast.FunctionDef) and any(x is n for x in ast.walk(fn)) and fn.args.args:
                            n.args = [name(c.name), name(fn.args.args[0].arg)]


@tr
def whileloop(tree):
    """for i in range(n): -> i = 0; while i < n   (bodies without continue)"""
    for fn, n, f, b in list(infunc_bodies(tree)):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) \
                    and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)) and not s.orelse and '_' != s.target.id:
                i = s.target.id
                out.append(ast.Assign([name(i, S)], ast.Constant(0)))
                out.append(ast.While(ast.Compare(name(i), [ast.Lt()], [s.iter.args[0]]), s.body + [ast.AugAssign(name(i, S), ast.Add(), ast.Constant(1))], []))
            else: out.append(s)
        b[:] = out


def copy_src(dst):
    for d, dirs, files in os.walk('/repo/marxs'):
        dirs[:] = [x for x in dirs if x not in ('__pycache__', 'data', 'tests', 'test')]
        o = os.path.join(dst, os.path.relpath(d, '/repo'))
        os.makedirs(o, exist_ok=True)
        for f in files:
            if f.endswith('.py'): shutil.copy(os.path.join(d, f), o)


def apply(names, dst):
    for d, _, files in os.walk(dst):
        if '/tests' in d or '/test/' in d or d.endswith('/test') or 'extern' in d: continue
        for f in files:
            if not f.endswith('.py') or f in ('conftest.py', '_astropy_init.py', 'version.py', 'setup_package.py'): continue
            p = os.path.join(d, f)
            tree = ast.parse(open(p, encoding='utf8').read())
            MODN.clear()
            for s in tree.body:
                for x in ast.walk(s):
                    if isinstance(s, (ast.Import, ast.ImportFrom)) and isinstance(x, ast.alias): MODN.add((x.asname or x.name).split('.')[0])
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)): MODN.add(s.name)
                if isinstance(s, ast.Assign):
                    MODN.update(x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            for nm in names: T[nm](tree)
            ast.fix_missing_locations(tree)
            src = ast.unparse(tree) + '\n'
            compile(src, p, 'exec')
            open(p, 'w', encoding='utf8').write(src)


def one(nm):
    dst = f'/tmp/refac/{nm}'
    if os.path.exists(dst): shutil.rmtree(dst)
    os.makedirs(dst)
    tests = '-t' in sys.argv
    if tests: subprocess.run(['cp', '-a', '/repo/.', dst], check=True)
    else: copy_src(dst)
    try: apply(nm.split('+'), os.path.join(dst, 'marxs'))
    except Exception as e: return nm, {'APPLY': repr(e)}, '', {}
    r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'runall.py')], env=dict(os.environ, MARXS_SRC=dst), capture_output=True, text=True)
    tmsg = ''
    if tests:
        sys.path.insert(0, HERE)
        import mkseed
        t = subprocess.run([mkseed.PY, '-m', 'pytest', '-q', '-n', '4', '-p', 'no:cacheprovider', '--disable-warnings', '--tb=line', '-rfE'], cwd=dst, env=mkseed.ENV, capture_output=True, text=True)
        bad = set(re.findall(r'^(?:FAILED|ERROR) (\S+)', t.stdout, re.M)) - mkseed.baseline()
        tmsg = f'{len(bad)} new test failures {sorted(bad)[:5]}' + '\n'.join(x for x in t.stdout.split('\n') if 'Error' in x)[:600] if bad else 'tests ok'
    try: d = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: d = {'RUN': {'viol': {'crash': r.stderr[-300:]}, 'und': {}, 'low': []}}
    if '-k' not in sys.argv: shutil.rmtree(dst)
    return nm, None, tmsg, d


if __name__ == '__main__':
    pat = [a for a in sys.argv[1:] if not a.startswith('-')]
    todo = [t for t in T if not pat or any(p == t or (p.endswith('*') and p[:-1] in t) for p in pat)] + [p for p in pat if '+' in p]
    with ThreadPoolExecutor(3 if '-t' in sys.argv else 8) as ex:
        for nm, err, tmsg, d in ex.map(one, todo):
            if err: print('!!', nm, err); continue
            nv = sum(len(v['viol']) for v in d.values()); nu = sum(len(v['und']) for v in d.values())
            low = [(p, v['low']) for p, v in d.items() if v['low']]
            print(f'{nm}: {nv} alarms, {nu} undecided', f'LOW {low}' if low else '', tmsg, flush=True)
            n = 0
            for p, v in d.items():
                for k, m in v['viol'].items():
                    n += 1
                    if n <= (40 if '-v' in sys.argv else 6): print('   ', p, k[:90], '::', m[:200])
