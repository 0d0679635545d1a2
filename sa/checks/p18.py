"""Closed-world resolution of the whole package: every name, import, module attribute and attribute of self that is read has
a definition, no local variable is read where no assignment can have happened, every call of a function, method or constructor of the
package binds to its signature (also in classes that override the method), properties are only assigned where there is a setter,
and format strings get the values they ask for.  No path may end in a NameError, ImportError, AttributeError or TypeError of this kind."""
import ast
import builtins
import string
import symtable
import warnings

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__class__', '__module__', '__qualname__'}


def run(prog, chk):
    chk.rule('names', 'every name that is read is defined', floor=50)
    chk.rule('imports', 'everything imported from the package exists', floor=30)
    chk.rule('bound', 'no local variable is read before any assignment can have happened', floor=100)
    chk.rule('calls', 'arguments of calls bind to the signature of the function, method or constructor', floor=200)
    chk.rule('attributes', 'attributes of self, modules and classes that are read exist', floor=200)
    chk.rule('format', 'format strings get the values they ask for', floor=10)
    C(prog, chk).run()


class C:
    def __init__(self, prog, chk):
        self.prog, self.chk = prog, chk
        self.mods = {n: m for n, m in prog.modules.items() if n.split('.')[0] == 'marxs'}
        self.funcs = {q: v for q, v in prog.funcs.items() if q.split('.')[0] == 'marxs'}
        self.stored = set()       # attribute names assigned on any object anywhere
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    if not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                        self.stored.add(x.attr)

    def run(self):
        for n, m in sorted(self.mods.items()):
            self.names(n, m)
            self.imports(n, m)
            self.formats(n, m)
        for q, (node, mod, ci) in sorted(self.funcs.items()):
            self.bound(q, node, mod)
            self.body(q, node, mod, ci)

    @staticmethod
    def short(q):
        return q.replace('marxs.', '', 1)

    # ------------------------------------------------------------ names
    def names(self, n, m):
        defs = set(m.defs)
        for s in m.star:
            if s in self.prog.modules:
                defs |= set(self.prog.modules[s].defs)
            else:
                return
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                defs |= set(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                defs.add(x.name)
        defs |= {y.id for s in m.tree.body for y in ast.walk(s) if isinstance(y, ast.NamedExpr) for y in [y.target]}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            st = symtable.symtable(m.src, m.path, 'exec')
        live = {x.id for x in reachable(m.tree) if isinstance(x, ast.Name)}
        loads = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name):
                loads.setdefault(x.id, x)

        def visit(t, path):
            if t.get_type() == 'function' or t.get_type() == 'class' or t.get_type() == 'module':
                self.chk.ok('names', self.short(path))
            top = t.get_type() == 'module'
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                glob = s.is_global() if not top else not (s.is_assigned() or s.is_imported() or s.is_namespace())
                if glob and nm in live and nm not in defs and nm not in BUILTIN and not nm.startswith('__conditional'):
                    x = loads.get(nm)
                    self.chk.bad('names', f'{self.short(path)}:{nm}', f'name {nm} is not defined',
                                 (m.rel(), self.line(m, nm, t.get_lineno()), path))
            for c in t.get_children():
                visit(c, f'{path}.{c.get_name()}')
        visit(st, n)

    def line(self, m, nm, after):
        ls = [x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == nm and hasattr(x, 'lineno')]
        ls2 = [y for y in ls if y >= after]
        return min(ls2 or ls or [after])

    def imports(self, n, m):
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.ImportFrom):
                continue
            base = self.prog.absname(m, x)
            if base.split('.')[0] != 'marxs':
                continue
            if guarded(m.tree, x):
                continue
            for a in x.names:
                key = f'{n}:{base}.{a.name}'
                self.chk.ok('imports', self.short(key))
                if '.tests' in base or base.endswith('version') or base.split('.')[-1].startswith('_'):
                    continue
                if base not in self.prog.modules:
                    self.chk.bad('imports', self.short(key), f'module {base} does not exist', (m.rel(), x.lineno, n))
                    continue
                if a.name == '*':
                    continue
                r = self.prog.resolve(f'{base}.{a.name}')
                if r[0] == 'missing' and not any(isinstance(y, (ast.ImportFrom, ast.Import)) and y.lineno == -1 for y in ()):
                    import os
                    d = os.path.dirname(self.prog.modules[base].path)
                    if self.prog.modules[base].is_pkg and os.path.isdir(os.path.join(d, a.name)):
                        continue
                    self.chk.bad('imports', self.short(key), f'{a.name} does not exist in {base}', (m.rel(), x.lineno, n))

    # ------------------------------------------------------------ unbound locals
    def bound(self, q, node, mod):
        self.chk.ok('bound', self.short(q))
        B(self, q, node, mod).run()

    # ------------------------------------------------------------ calls and attributes
    def body(self, q, node, mod, ci):
        a = node.args
        ps = a.posonlyargs + a.args
        deco = {d.id for d in node.decorator_list if isinstance(d, ast.Name)}
        me = None
        if ci is not None and 'staticmethod' not in deco:
            if not ps and not a.vararg:
                self.chk.bad('calls', self.short(q), 'method without self', (mod.rel(), node.lineno, q))
                return
            me = ps[0].arg if ps and 'classmethod' not in deco else None
        loc = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        loc |= {x.arg for x in ast.walk(node) if isinstance(x, ast.arg)}
        loc |= {(al.asname or al.name).split('.')[0] for x in ast.walk(node) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}
        loc |= {x.name for x in ast.walk(node) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not node}
        if me is not None and any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(node)):
            me = None
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                self.onecall(q, x, mod, ci, me, loc)
            elif isinstance(x, ast.Attribute):
                self.oneattr(q, x, mod, ci, me, loc, node)

    def resolve(self, f, mod, loc):
        r = f
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name) or r.id in loc:
            return None
        return self.prog.expr_to_entity(f, mod)

    def onecall(self, q, x, mod, ci, me, loc):
        f = x.func
        targets = []
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and me is not None:
            fm = self.prog.find_method(ci, f.attr)
            if fm and fm[1] is not None and f.attr not in self.prog.instance_assigned(ci):
                targets.append((fm[0], fm[1], 1))
                for c in self.prog.subclasses(ci):
                    if c is not ci and f.attr in c.methods:
                        targets.append((c, c.methods[f.attr], 1))
        elif isinstance(f, ast.Attribute) and is_super(f.value) and ci is not None and me is not None:
            after = ci
            if f.value.args:
                e = self.prog.expr_to_entity(f.value.args[0], mod)
                if e[0] != 'class' or e[1] not in self.prog.mro(ci):
                    return
                after = e[1]
            if self.prog.ext_bases(ci) and any(b != 'object' for b in self.prog.ext_bases(ci)):
                fm = self.prog.find_method(ci, f.attr, after=after)
                if not fm:
                    return
            fm = self.prog.find_method(ci, f.attr, after=after)
            if fm and fm[1] is not None:
                targets.append((fm[0], fm[1], 1))
            elif not fm and not f.attr.startswith('__') and not mixin(self.prog, ci, f.attr):
                self.chk.bad('calls', f'{self.short(q)}:super().{f.attr}', f'no parent class defines {f.attr}', (mod.rel(), x.lineno, q))
        elif isinstance(f, (ast.Name, ast.Attribute)):
            e = self.resolve(f, mod, loc)
            if e is None:
                return
            if e[0] == 'func':
                targets.append((None, e[1], 0))
            elif e[0] == 'class':
                c = e[1]
                if c.node.decorator_list or any(k.arg == 'metaclass' for k in c.node.keywords):
                    return
                if any('__new__' in k.methods for k in self.prog.mro(c)):
                    return
                fm = self.prog.find_method(c, '__init__')
                if fm and fm[1] is not None:
                    targets.append((fm[0], fm[1], 1))
            elif e[0] == 'classattr':
                fm = self.prog.find_method(e[1], e[2])
                if fm and fm[1] is not None:
                    d = {y.id for y in fm[1].decorator_list if isinstance(y, ast.Name)}
                    targets.append((fm[0], fm[1], 1 if 'classmethod' in d else 0))
        for c, fn, skip in targets:
            if any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')) for d in fn.decorator_list):
                continue
            if skip and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
                skip = 0
            nm = f'{c.qual}.{fn.name}' if c is not None else fn.name
            key = f'{self.short(q)}:{self.short(nm)}'
            self.chk.ok('calls', key)
            why = binds(x, fn, skip)
            if why:
                self.chk.bad('calls', key, f'call of {nm}: {why}', (mod.rel(), x.lineno, q))

    def oneattr(self, q, x, mod, ci, me, loc, node):
        if isinstance(x.value, ast.Name) and x.value.id == me and me is not None:
            if isinstance(x.ctx, ast.Store):
                for k in self.prog.mro(ci):
                    if x.attr in k.setters:
                        break
                    if x.attr in k.methods:
                        if any(isinstance(d, ast.Name) and d.id == 'property' for d in k.methods[x.attr].decorator_list):
                            self.chk.bad('attributes', f'{self.short(q)}:self.{x.attr}', f'{x.attr} is a property of {k.qual} without setter',
                                         (mod.rel(), x.lineno, q))
                        break
                    if x.attr in k.attrs:
                        break
                return
            if not isinstance(x.ctx, ast.Load) or x.attr.startswith('__'):
                return
            fam = [k for c in self.prog.subclasses(ci) for k in self.prog.mro(c)]
            if any(b not in ('object',) for k in fam for b in k.bases if isinstance(b, str)):
                return
            self.chk.ok('attributes', f'{self.short(q)}:self.{x.attr}')
            for k in fam:
                if x.attr in k.methods or x.attr in k.attrs or x.attr in k.setters or '__getattr__' in k.methods or '__getattribute__' in k.methods:
                    return
                if x.attr in self.prog.instance_assigned(k) or nested_defs(k, x.attr):
                    return
            if any(dynamic(k) for k in self.prog.mro(ci)):
                return
            if x.attr in self.stored or hasattr_guard(node, x.attr):
                return
            self.chk.bad('attributes', f'{self.short(q)}:self.{x.attr}', f'attribute {x.attr} is not defined anywhere',
                         (mod.rel(), x.lineno, q))
            return
        if isinstance(x.ctx, ast.Load):
            b = self.resolve(x.value, mod, loc) if isinstance(x.value, (ast.Name, ast.Attribute)) else None
            if b is not None and b[0] == 'module' and b[1].split('.')[0] == 'marxs':
                self.chk.ok('attributes', f'{self.short(q)}:{b[1]}.{x.attr}')
                e = self.prog.resolve_in(self.prog.modules[b[1]], x.attr)
                if e[0] == 'missing' and not x.attr.startswith('__'):
                    self.chk.bad('attributes', f'{self.short(q)}:{b[1]}.{x.attr}', f'{x.attr} does not exist in module {b[1]}',
                                 (mod.rel(), x.lineno, q))
            elif b is not None and b[0] == 'class' and not x.attr.startswith('__') and x.attr not in ('mro',):
                c = b[1]
                if any(y != 'object' for y in self.prog.ext_bases(c)) or any(k.node.keywords for k in self.prog.mro(c)):
                    return
                self.chk.ok('attributes', f'{self.short(q)}:{c.qual}.{x.attr}')
                if not any(x.attr in k.methods or x.attr in k.attrs or x.attr in k.setters or nested_defs(k, x.attr) or dynamic(k) for k in self.prog.mro(c)) and \
                        x.attr not in self.stored:
                    self.chk.bad('attributes', f'{self.short(q)}:{c.qual}.{x.attr}', f'{x.attr} does not exist in class {c.qual}',
                                 (mod.rel(), x.lineno, q))

    # ------------------------------------------------------------ format strings
    def formats(self, n, m):
        k = 0
        for x in ast.walk(m.tree):
            where = (m.rel(), getattr(x, 'lineno', 0), n)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and \
                    isinstance(x.func.value, ast.Constant) and isinstance(x.func.value.value, str):
                k += 1
                key = f'{self.short(n)}:{x.func.value.value[:40]!r}'
                self.chk.ok('format', key)
                try:
                    fields = [f[1] for f in string.Formatter().parse(x.func.value.value) if f[1] is not None]
                except ValueError as e:
                    self.chk.bad('format', key, f'format string is invalid: {e}', where)
                    continue
                if any(isinstance(a, ast.Starred) for a in x.args):
                    continue
                auto = [f for f in fields if f == '' or f[:1] in '.[']
                if len(auto) > len(x.args):
                    self.chk.bad('format', key, f'{len(auto)} values are needed, but {len(x.args)} given', where)
                named = {k.arg for k in x.keywords}
                for f in fields:
                    b = f.replace('[', '.').split('.')[0]
                    if b.isdigit() and int(b) >= len(x.args):
                        self.chk.bad('format', key, f'value {b} is needed, but only {len(x.args)} given', where)
                    elif b and not b.isdigit() and None not in named and b not in named:
                        self.chk.bad('format', key, f'value {b} is needed, but not given', where)
            elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) and \
                    isinstance(x.right, ast.Tuple) and not any(isinstance(a, ast.Starred) for a in x.right.elts):
                key = f'{self.short(n)}:{x.left.value[:40]!r}'
                self.chk.ok('format', key)
                cnt = x.left.value.replace('%%', '').count('%')
                if '%(' not in x.left.value and '*' not in x.left.value and cnt != len(x.right.elts):
                    self.chk.bad('format', key, f'{cnt} values are needed, but {len(x.right.elts)} given', where)


def reachable(tree):
    """nodes that are not behind a return or raise in the same block"""
    st = [tree]
    while st:
        x = st.pop()
        yield x
        for f, v in ast.iter_fields(x):
            if isinstance(v, list):
                for y in v:
                    if isinstance(y, ast.AST):
                        st.append(y)
                    if isinstance(y, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                        break
            elif isinstance(v, ast.AST):
                st.append(v)


def guarded(tree, imp):
    """imports that may fail (inside try)"""
    return any(isinstance(t, ast.Try) and any(y is imp for s in t.body for y in ast.walk(s)) for t in ast.walk(tree))


def is_super(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super'


def mixin(prog, ci, name):
    """a class that is only used together with others"""
    for c in prog.subclasses(ci):
        fm = prog.find_method(c, name, after=ci)
        if fm or any(b != 'object' for b in prog.ext_bases(c)):
            return True
    return False


def nested_defs(k, name):
    return any(isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == name for x in ast.walk(k.node)) or \
        any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for s in k.node.body if not isinstance(s, ast.FunctionDef)
            for x in ast.walk(s))


def dynamic(k):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' or
               isinstance(x, ast.Attribute) and x.attr == '__dict__' for x in ast.walk(k.node))


def hasattr_guard(node, name):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and
               isinstance(x.args[1], ast.Constant) and x.args[1].value == name for x in ast.walk(node)) or \
        any(isinstance(x, ast.Try) and any('AttributeError' in ast.unparse(h.type) if h.type else True for h in x.handlers) for x in ast.walk(node))


def binds(call, fn, skip):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ndef = len(a.defaults)
    required = pos[:len(pos) - ndef] if ndef else pos
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return f'takes {len(pos)} positional arguments, {npos} are given'
    given = set(pos[:npos]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return f'argument {k.arg} is given twice'
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return f'there is no argument {k.arg}'
        if k.arg in [x.arg for x in a.posonlyargs]:
            return f'argument {k.arg} can only be given by position'
        given.add(k.arg)
    if star or dstar:
        return None
    miss = [p for p in required if p not in given] + [
        p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in given]
    if miss:
        return f'required argument {miss[0]} is missing'
    return None


class B:
    """locals that can have been assigned, forward over the statements"""
    def __init__(self, c, q, node, mod):
        self.c, self.q, self.node, self.mod = c, q, node, mod
        self.outer = set()

    def run(self):
        n = self.node
        self.fn(n, set())

    def fn(self, n, outer):
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        gl = {nm for x in own(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for nm in x.names}
        stores = set()
        for x in own(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                stores.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                stores |= {(al.asname or al.name).split('.')[0] for al in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                stores.add(x.name)
        self.loc = stores - gl - params
        self.loc -= {x.id for c in own(n) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)} - \
            {x.id for s in own(n) if isinstance(s, (ast.Assign, ast.For, ast.AugAssign)) for t in
             (s.targets if isinstance(s, ast.Assign) else [s.target]) for x in ast.walk(t) if isinstance(x, ast.Name)}
        self.comp = {x.id for c in own(n) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        self.block(n.body, set())

    def use(self, e, have):
        """reads in an expression; names bound by walrus are added"""
        if e is None:
            return
        for x in iter_expr(e):
            if isinstance(x, ast.NamedExpr):
                have.add(x.target.id)
        for x in iter_expr(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.loc and x.id not in have and x.id not in self.comp:
                self.c.chk.bad('bound', f'{self.c.short(self.q)}:{x.id}', f'{x.id} is read before it is assigned',
                               (self.mod.rel(), x.lineno, self.q))

    def store(self, t, have):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.id)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use(x, have)

    def block(self, body, have):
        """-> names that can be bound after the block, None when the end is never reached"""
        for s in body:
            if have is None:
                return None
            have = self.stmt(s, have)
        return have

    def stmt(self, s, have):
        if isinstance(s, (ast.Assign,)):
            self.use(s.value, have)
            for t in s.targets:
                self.store(t, have)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, have)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), have)
            self.store(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            self.use(s.value, have)
            if s.value is not None:
                self.store(s.target, have)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.use(e, have)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.jump.append(set(have))
            return None
        elif isinstance(s, ast.If):
            self.use(s.test, have)
            a, b = self.block(s.body, set(have)), self.block(s.orelse, set(have))
            return b if a is None else a if b is None else a | b
        elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            old, self.jump = getattr(self, 'jump', []), []
            if not isinstance(s, ast.While):
                self.use(s.iter, have)
            first = set(have)
            # everything the body can assign can be there in the next round
            inner = set(have) | {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if isinstance(s, ast.While):
                self.use(s.test, set(first))
                cur = set(first)
            else:
                cur = set(first)
                self.store(s.target, cur)
            end = self.block(s.body, cur | loop_carried(s.body))
            out = set(have) | (end or set())
            for j in self.jump:
                out |= j
            self.jump = old
            r = self.block(s.orelse, out)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                return out
            return out if r is None else r | out
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, have)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, have)
            r = self.block(s.body, set(have))
            return r
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            a = self.block(s.body, set(have))
            some = set(have) | {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | imported(s.body)
            if a is not None:
                a = self.block(s.orelse, a)
            outs = [a] if a is not None else []
            for h in s.handlers:
                hv = set(some)
                if h.name:
                    hv.add(h.name)
                r = self.block(h.body, hv)
                if r is not None:
                    outs.append(r)
            res = set().union(*outs) if outs else None
            if s.finalbody:
                f = self.block(s.finalbody, set(some) | (res or set()))
                return None if res is None or f is None else res | f
            return res
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            have |= {(al.asname or al.name).split('.')[0] for al in s.names}
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    have.discard(t.id)
                else:
                    self.use(t, have)
        elif isinstance(s, (ast.Expr, ast.Assert)):
            for e in ast.iter_child_nodes(s):
                self.use(e, have)
        return have


def imported(body):
    return {(al.asname or al.name).split('.')[0] for y in body for x in ast.walk(y) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}


def loop_carried(body):
    return {x.id for y in body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | imported(body) | {
        x.name for y in body for x in ast.walk(y) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}


def iter_expr(e):
    """sub-expressions evaluated now (not in a nested function)"""
    st = [e]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.Lambda, ast.FunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(x))


def own(n):
    st = list(n.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(x))
