"""Effects: which existing objects does a function write to?

A flow-sensitive, interprocedural may-alias analysis on the syntax tree.  The value of every expression is
abstracted to the set of objects it may be (or be part of):

  roots   ('param', name)  an argument of the function under analysis
          ('self', attr)   what is stored in an attribute of the object
          ('me',)          the object itself
          ('glob', qual)   a module level object
          ('class', qual)  a class level object (shared by all instances)
  kinds   0  the object itself,  1  something inside it,  'c'  a fresh container whose items belong to it

Writes are: subscript and attribute stores, deletions, in-place methods of lists, dicts, sets, arrays and
tables, in-place numpy functions.  Summaries of all functions are iterated to a fixpoint.
Anything not recognised has no roots (no report)."""
import ast

MUT = {'append', 'extend', 'insert', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard',
       'popitem', 'pop', 'fill', 'resize', 'itemset', 'put', 'rename_column', 'add_column', 'add_columns', 'remove_column', 'remove_columns',
       'remove_rows', 'remove_row', 'add_row', 'keep_columns', 'replace_column', 'rename_columns', 'insert_row', '__setitem__',
       '__delitem__', 'intersection_update', 'difference_update', 'symmetric_difference_update'}
INPLACE = {'numpy.random.shuffle', 'numpy.put', 'numpy.copyto', 'numpy.fill_diagonal', 'numpy.place', 'numpy.putmask', 'random.shuffle',
           'numpy.put_along_axis'}
VIEW = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.ravel', 'numpy.reshape',
        'numpy.squeeze', 'numpy.transpose', 'numpy.swapaxes'}
SHALLOW = {'copy.copy', 'list', 'tuple', 'sorted', 'reversed', 'iter', 'zip', 'enumerate', 'dict', 'itertools.chain', 'set', 'vars'}
VIEWM = {'view', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes'}
IMMUT = (ast.Constant, ast.JoinedStr, ast.Lambda)
NOALIAS = {'shape', 'size', 'ndim', 'dtype', 'colnames', 'unit', 'name', 'T', 'flat'}
EMPTY = frozenset()
NUMERIC = {'dir', 'pos'}


def sub(v):
    return frozenset((r, 1) for r, k in v)


def cont(v):
    """a fresh container (or shallow copy)"""
    return frozenset((r, 'c') for r, k in v)


class Summary:
    def __init__(self):
        self.muts = {}      # (root, level) -> (how, where)
        self.ret = EMPTY

    def sig(self):
        return frozenset(self.muts), self.ret


class Effects:
    def __init__(self, prog, pkg='marxs'):
        self.prog = prog
        self.funcs = {q: v for q, v in prog.funcs.items() if q.split('.')[0] == pkg}
        self.sum = {q: Summary() for q in self.funcs}
        self.qual_of = {id(v[0]): q for q, v in self.funcs.items()}
        self.calls = 0
        # attributes that are a list or dictionary shared by all instances until an instance gets its own
        self.shared_names = {n for c in prog.classes.values() if c.qual.split('.')[0] == pkg for n, v in c.attrs.items()
                             if isinstance(v, (ast.Dict, ast.List)) and (v.keys if isinstance(v, ast.Dict) else v.elts)
                             and self.class_attr(c, n) is not None}
        self.shared_names -= {n for c in prog.classes.values() if c.qual.split('.')[0] == pkg for n in c.attrs
                              if self.mutable_expr(c.attrs[n]) and self.class_attr(c, n) is None}
        for _ in range(12):
            ch = False
            for q, (node, mod, ci) in self.funcs.items():
                s = FA(self, q, node, mod, ci).run()
                if s.sig() != self.sum[q].sig():
                    ch = True
                self.sum[q] = s
            if not ch:
                break

    # ---------------------------------------------------------------- what is shared
    def mutable_global(self, e):
        """entity ('assign', mod, name, nodes): a module level object that can be written to"""
        st = e[3][0]
        v = getattr(st, 'value', None)
        if v is None or isinstance(v, IMMUT):
            return False
        if isinstance(v, (ast.Tuple, ast.BinOp, ast.UnaryOp, ast.Compare)):
            return False
        return True

    def empty(self, r):
        """an empty list or dictionary has no content that could be shared"""
        q, _, nm = r[1].rpartition('.')
        c = self.prog.classes.get(q)
        v = c.attrs.get(nm) if c is not None else None
        return isinstance(v, (ast.List, ast.Dict)) and not (v.elts if isinstance(v, ast.List) else v.keys)

    def mutable_expr(self, v):
        return v is not None and not isinstance(v, IMMUT + (ast.Tuple, ast.BinOp, ast.UnaryOp, ast.Name, ast.Attribute))

    def class_attr(self, ci, name):
        """class level object reached by self.name when no instance attribute is set for sure"""
        for k in self.prog.mro(ci):
            if name in k.methods or name in k.setters:
                return None
            if name in k.attrs:
                if not self.mutable_expr(k.attrs[name]):
                    return None
                if isinstance(k.attrs[name], ast.Call) and ast.unparse(k.attrs[name].func) in ('property',):
                    return None
                for k2 in self.prog.mro(ci):
                    ini = k2.methods.get('__init__')
                    if ini is not None and any(isinstance(s, ast.Assign) and any(
                            isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self'
                            for t in s.targets) for s in own(ini.body)):
                        return None
                return ('class', f'{k.qual}.{name}')
        return None


class FA:
    def __init__(self, eff, q, node, mod, ci):
        self.eff, self.prog, self.q, self.node, self.mod, self.ci = eff, eff.prog, q, node, mod, ci
        self.s = Summary()
        self.env = {}
        self.locals = set()
        self.globals = set()
        self.loopvars = set()
        self.me = None

    def where(self, n):
        return (self.mod.rel(), getattr(n, 'lineno', self.node.lineno), self.q)

    def run(self):
        n = self.node
        a = n.args
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in n.decorator_list)
        ps = a.posonlyargs + a.args
        for i, p in enumerate(ps):
            if i == 0 and self.ci is not None and not static and self.ci.methods.get(n.name) is n or \
                    i == 0 and self.ci is not None and self.ci.setters.get(n.name) is n:
                self.me = p.arg
                if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in n.decorator_list):
                    self.env[p.arg] = frozenset({(('class', self.ci.qual), 0)})
                    self.me = None
                else:
                    self.env[p.arg] = frozenset({(('me',), 0)})
            else:
                self.env[p.arg] = frozenset({(('param', p.arg), 0)})
        for p in a.kwonlyargs:
            self.env[p.arg] = frozenset({(('param', p.arg), 0)})
        for p in (a.vararg, a.kwarg):
            if p is not None:
                self.env[p.arg] = frozenset({(('param', p.arg), 'c')})
        self.collect_locals(n)
        self.block(n.body)
        return self.s

    def collect_locals(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.For, ast.comprehension)):
                self.loopvars |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        for x in ast.walk(n):
            if isinstance(x, ast.Assign):
                self.loopvars -= {t.id for t in x.targets if isinstance(t, ast.Name)}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.locals.add(x.id)
            elif isinstance(x, ast.arg):
                self.locals.add(x.arg)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n:
                self.locals.add(x.name)
            elif isinstance(x, ast.Global):
                self.globals |= set(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.locals.add(x.name)
        self.locals -= self.globals

    # ---------------------------------------------------------------- writes
    def mutate(self, v, how, node):
        for r, k in v:
            if k == 'v':            # a slice: shares the data of an array, but not the items of a list
                if how != 'item assignment':
                    continue
                k = 1
            if k == 'c' or k == 1 and r[0] in ('glob', 'class') and self.eff.empty(r):
                continue
            self.s.muts.setdefault((r, k), (how, self.where(node)))

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def merge(self, e1, e2):
        self.env = {k: e1.get(k, EMPTY) | e2.get(k, EMPTY) for k in set(e1) | set(e2)}

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s, s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                if t.id in self.globals:
                    self.mutate(frozenset({(('glob', f'{self.mod.name}.{t.id}'), 0)}), 'augmented assignment', s)
                # numbers, strings and tuples are not changed in place: only shared objects known to be mutable count
                v = frozenset((r, k) for r, k in self.env.get(t.id, EMPTY) if r[0] in ('glob', 'class'))
                self.mutate(v, 'augmented assignment', s)
            elif isinstance(t, ast.Attribute):
                self.setattr(t, self.ev(t.value), s)
                v = frozenset((r, k) for r, k in self.ev(t) if r[0] == 'class' or r[0] == 'glob')
                self.mutate(v, 'augmented assignment', s)
            else:
                self.ev(t.slice)
                self.mutate(self.ev(t.value), 'item assignment', s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.s.ret |= self.ev(s.value)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), 'del', s)
                elif isinstance(t, ast.Attribute):
                    self.setattr(t, self.ev(t.value), s)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1, self.env = self.env, e0
            self.block(s.orelse)
            dead1, dead2 = leaves(s.body), leaves(s.orelse)
            if dead1 and not dead2:
                return
            if dead2 and not dead1:
                self.env = e1
                return
            self.merge(e1, self.env)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                e0 = dict(self.env)
                self.assign(s.target, sub_iter(it, s.iter), s)
                self.block(s.body)
                self.merge(e0, self.env)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test)
                e0 = dict(self.env)
                self.block(s.body)
                self.merge(e0, self.env)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            self.block(s.body)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            e0 = dict(self.env)
            self.block(s.body)
            self.block(s.orelse)
            out = self.env
            for h in s.handlers:
                self.env = {k: e0.get(k, EMPTY) | out.get(k, EMPTY) for k in set(e0) | set(out)}
                self.block(h.body)
                if not leaves(h.body):
                    out = {k: out.get(k, EMPTY) | self.env.get(k, EMPTY) for k in set(out) | set(self.env)}
            self.env = out
            self.block(s.finalbody)
        elif isinstance(s, ast.FunctionDef):
            e0 = dict(self.env)
            for p in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [x for x in (s.args.vararg, s.args.kwarg) if x]:
                self.env[p.arg] = EMPTY
            ret = self.s.ret
            self.block(s.body)
            self.s.ret = ret
            self.env = e0
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)

    def setattr(self, t, base, s):
        if isinstance(t.value, ast.Name) and t.value.id == self.me:
            self.s.muts.setdefault((('self', t.attr), 'set'), ('attribute assignment', self.where(s)))
            return
        self.mutate(base, f'assignment to attribute {t.attr}', s)

    def assign(self, t, v, s, value=None):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.mutate(frozenset({(('glob', f'{self.mod.name}.{t.id}'), 0)}), 'assignment to global', s)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in list(t.elts) + list(value.elts)):
                vs = [self.ev(x) for x in value.elts]
                for x, w in zip(t.elts, vs):
                    self.assign(x, w, s)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, sub(v), s)
        elif isinstance(t, ast.Attribute):
            self.setattr(t, self.ev(t.value), s)
            if isinstance(t.value, ast.Name):
                self.env[f'{t.value.id}.{t.attr}'] = v
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            self.mutate(self.ev(t.value), 'item assignment', s)
            kk = self.kwkey(t)
            if kk is not None:
                self.env[kk] = v

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None or isinstance(e, ast.Constant):
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in self.locals or e.id in self.env:
                return self.env.get(e.id, EMPTY)
            ent = self.prog.resolve_in(self.mod, e.id)
            return self.entity(ent)
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            sl = e.slice
            kk = self.kwkey(e)
            if kk is not None:
                return self.env[kk] if kk in self.env else frozenset({(('param', kk), 0)})
            if isinstance(sl, ast.Constant) and isinstance(sl.value, (str, int)) or isinstance(sl, ast.Slice) or \
                    isinstance(sl, ast.UnaryOp) and isinstance(sl.operand, ast.Constant) or \
                    isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts) and all(
                        isinstance(x, ast.Slice) or isinstance(x, ast.Constant) or isinstance(x, ast.UnaryOp) for x in sl.elts):
                if isinstance(sl, ast.Slice) and (isinstance(e.value, ast.Call) or sl.lower is None and sl.upper is None):
                    return cont(b)
                return sub(b) if not isinstance(sl, ast.Slice) else frozenset((r, k if k == 'c' else 'v') for r, k in b)
            if isinstance(sl, ast.Name) and sl.id in self.loopvars:
                return sub(b)
            return EMPTY
        if isinstance(e, (ast.List, ast.Tuple)):
            out = EMPTY
            for x in e.elts:
                out |= self.ev(x.value if isinstance(x, ast.Starred) else x)
            return cont(out)
        if isinstance(e, ast.Dict):
            for x in e.keys:
                if x is not None:
                    self.ev(x)
            out = EMPTY
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is None:
                    out |= cont(v)
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for x in e.values:
                out |= self.ev(x)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, e)
            return v
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e0 = dict(self.env)
            for g in e.generators:
                it = self.ev(g.iter)
                self.assign(g.target, sub_iter(it, g.iter), e)
                for c in g.ifs:
                    self.ev(c)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = e0
            return cont(v)
        if isinstance(e, ast.Lambda):
            e0 = dict(self.env)
            for p in e.args.args:
                self.env[p.arg] = EMPTY
            self.ev(e.body)
            self.env = e0
            return EMPTY
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(e.value) if e.value is not None else EMPTY
            self.s.ret |= cont(v)
            return EMPTY
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (self.islist(e.left) or self.islist(e.right)):
            return cont(self.ev(e.left) | self.ev(e.right))      # lists keep their items
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return EMPTY

    def islist(self, e):
        if isinstance(e, (ast.List, ast.ListComp)):
            return True
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me and self.me is not None:
            fa = self.prog.find_attr(self.ci, e.attr)
            return bool(fa) and isinstance(fa[1], ast.List)
        if isinstance(e, ast.Name):
            a = self.node.args
            pos = a.posonlyargs + a.args
            d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
            return isinstance(d.get(e.id), ast.List)
        return False

    def kwkey(self, e):
        """kwargs['x'] of the function under analysis"""
        kw = self.node.args.kwarg
        if kw is not None and isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == kw.arg and \
                isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) and (('param', kw.arg), 'c') in self.env.get(kw.arg, EMPTY):
            return f'{kw.arg}[{e.slice.value}]'
        return None

    def entity(self, ent):
        if ent[0] == 'assign' and self.eff.mutable_global(ent):
            st = ent[3][0]
            v = getattr(st, 'value', None)
            if isinstance(v, (ast.Name, ast.Attribute)):
                e2 = self.prog.expr_to_entity(v, ent[1])
                if e2[0] == 'assign' and e2[2] != ent[2]:
                    return self.entity(e2)
                if e2[0] in ('func', 'class', 'ext', 'classattr'):
                    return EMPTY
            return frozenset({(('glob', f'{ent[1].name}.{ent[2]}'), 0)})
        if ent[0] == 'class':
            return frozenset({(('class', ent[1].qual), 0)})
        if ent[0] == 'classattr':
            fa = self.prog.find_attr(ent[1], ent[2])
            if fa and self.eff.mutable_expr(fa[1]):
                return frozenset({(('class', f'{fa[0].qual}.{ent[2]}'), 0)})
        return EMPTY

    def attr(self, e):
        if isinstance(e.value, ast.Name):
            k = f'{e.value.id}.{e.attr}'
            if k in self.env:
                return self.env[k]
            if e.value.id == self.me and self.me is not None:
                if e.attr == '__class__':
                    return frozenset({(('class', self.ci.qual), 0)})
                out = {(('self', e.attr), 0)}
                ca = self.eff.class_attr(self.ci, e.attr)
                if ca is not None:
                    out.add((ca, 0))
                fm = self.prog.find_method(self.ci, e.attr)
                if fm and fm[1] is not None:
                    if any(isinstance(d, ast.Name) and d.id == 'property' for d in fm[1].decorator_list):
                        return self.mapret(self.eff.qual_of.get(id(fm[1])), {}, EMPTY, True)
                    return EMPTY
                return frozenset(out)
            if e.value.id not in self.locals:
                ent = self.prog.expr_to_entity(e, self.mod)
                if ent[0] in ('assign', 'classattr', 'class'):
                    return self.entity(ent)
                if ent[0] in ('func', 'ext', 'module'):
                    return EMPTY
        b = self.ev(e.value)
        if e.attr in NOALIAS:
            return EMPTY
        if e.attr == '__class__':
            return EMPTY
        if e.attr in self.eff.shared_names and not (isinstance(e.value, ast.Name) and e.value.id == self.me):
            return sub(b) | {(('class', '*.' + e.attr), 0)}
        return sub(b)

    # ---------------------------------------------------------------- calls
    def call(self, e):
        f = e.func
        args = [self.ev(a) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        name = dotted = None
        target, recv, isself, fresh = None, EMPTY, False, False
        if isinstance(f, ast.Name):
            if f.id in self.locals and f.id not in self.globals:
                return self.step(args, e)
            ent = self.prog.resolve_in(self.mod, f.id)
            dotted = self.extname(ent, f.id)
            target, fresh = self.callable(ent)
        elif isinstance(f, ast.Attribute):
            name = f.attr
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.ci is not None:
                fm = self.prog.find_method(self.ci, name, after=self.ci)
                if fm and fm[1] is not None:
                    target, isself = self.eff.qual_of.get(id(fm[1])), True
                if not target:
                    return EMPTY
            elif isinstance(f.value, ast.Name) and f.value.id == self.me and self.me is not None:
                fm = self.prog.find_method(self.ci, name)
                if fm and fm[1] is not None:
                    target, isself = self.eff.qual_of.get(id(fm[1])), True
                else:
                    recv = EMPTY
            else:
                ent = self.prog.expr_to_entity(f, self.mod) if root(f) not in self.locals else ('missing', '')
                if ent[0] == 'ext':
                    dotted = ent[1]
                elif ent[0] in ('func', 'class'):
                    target, fresh = self.callable(ent)
                elif ent[0] == 'classattr':
                    fm = self.prog.find_method(ent[1], ent[2])
                    if fm and fm[1] is not None:
                        target = self.eff.qual_of.get(id(fm[1]))
                        cm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fm[1].decorator_list)
                        sm = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fm[1].decorator_list)
                        if not cm and not sm and args:
                            recv, args = args[0], args[1:]
                            isself = isinstance(e.args[0], ast.Name) and e.args[0].id == self.me
                else:
                    recv = self.ev(f.value)
        else:
            self.ev(f)
            return EMPTY
        if target is not None:
            self.eff.calls += 1
            return self.apply(target, recv, isself, fresh, args, kws, e)
        if dotted is not None:
            d = dotted
            if d in ('setattr', 'builtins.setattr', 'delattr') and args:
                if isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
                    self.s.muts.setdefault((('self', '*'), 'set'), ('setattr', self.where(e)))
                else:
                    self.mutate(args[0], 'setattr', e)
                return EMPTY
            if d in INPLACE and args:
                self.mutate(args[0], d, e)
                return EMPTY
            for k, v in kws:
                if k == 'out':
                    self.mutate(v, f'out argument of {d}', e)
            if d in VIEW and args:
                return args[0]
            if d in SHALLOW:
                out = EMPTY
                for a in args:
                    out |= cont(a)
                return out
            if d in ('getattr', 'builtins.getattr', 'next') and args:
                return sub(args[0])
            return EMPTY
        if name is not None and isinstance(f, ast.Attribute):
            recv = self.ev(f.value)
            if name in MUT:
                self.mutate(recv, f'.{name}()', e)
                return sub(recv) if name in ('setdefault', 'pop', 'popitem') else EMPTY
            if name in VIEWM:
                return recv
            if name in ('get', 'values', 'items', 'keys'):
                return sub(recv) if name == 'get' else cont(recv)
            if name == 'copy':
                return cont(recv)
            if isinstance(f.value, ast.Name) and f.value.id == self.me and not target or name == 'process_photons':
                return self.step(args, e)
        return EMPTY

    def step(self, args, e):
        """an object that is not known here is called: a step of the simulation changes the photon list it is given"""
        ph = frozenset((r, k) for a in args[:1] for r, k in a if r[0] == 'param' and 'photon' in r[1] and k == 0)
        self.mutate(ph, 'photon list is passed to a step of the simulation', e)
        return ph

    def extname(self, ent, nm):
        if ent[0] == 'ext':
            return ent[1]
        if ent[0] == 'missing':
            return nm
        return None

    def callable(self, ent):
        if ent[0] == 'func':
            return self.eff.qual_of.get(id(ent[1])), False
        if ent[0] == 'class':
            fm = self.prog.find_method(ent[1], '__init__')
            if fm and fm[1] is not None:
                return self.eff.qual_of.get(id(fm[1])), True
        return None, False

    def bindargs(self, target, args, kws):
        node, mod, ci = self.eff.funcs[target]
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
        if ci is not None and not static and pos:
            pos = pos[1:]
        m = {}
        for p, v in zip(pos, args):
            m[p] = v
        if len(args) > len(pos) and a.vararg is not None:
            out = EMPTY
            for v in args[len(pos):]:
                out |= v
            m[a.vararg.arg] = cont(out)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = EMPTY
        for k, v in kws:
            if k is None:
                rest |= v
            elif k in pos or k in kwonly:
                m[k] = v
            else:
                rest |= cont(v)
                if a.kwarg is not None:
                    m[f'{a.kwarg.arg}[{k}]'] = v
        for p in pos + kwonly:
            if p not in m and any(k is None for k, _ in kws):
                m[p] = sub(next(v for k, v in kws if k is None))
        if a.kwarg is not None:
            m[a.kwarg.arg] = cont(rest)
        return m

    def argument(self, m, name, kws):
        if name in m or not name.endswith(']'):
            return m.get(name, EMPTY)
        key = name[name.index('[') + 1:-1]
        out = EMPTY
        for k, v in kws:
            if k is None:       # **kwargs handed on
                for r, lvl in v:
                    if r[0] == 'param' and lvl == 'c':
                        kk = f'{r[1]}[{key}]'
                        out |= self.env.get(kk, frozenset({(('param', kk), 0)}))
                    else:
                        out |= {(r, 1)}
        return out

    def apply(self, target, recv, isself, fresh, args, kws, e):
        m = self.bindargs(target, args, kws)
        s = self.eff.sum[target]
        short = target.rpartition('.')[2]
        for (r, lvl), (how, wh) in s.muts.items():
            h = how if how.endswith(')') and ' in ' in how else f'{how} in {target} ({wh[0]}:{wh[1]})'
            if r[0] == 'param':
                v = self.argument(m, r[1], kws)
                if lvl == 1:
                    v = frozenset((x, 1) for x, k in v)
                self.mutate(v, h, e)
            elif r[0] in ('glob', 'class'):
                self.s.muts.setdefault((r, lvl), (h, self.where(e)))
            elif r[0] in ('self', 'me'):
                if fresh:
                    continue
                if isself:
                    self.s.muts.setdefault((r, lvl), (h, self.where(e)))
                else:
                    self.mutate(frozenset((x, k) for x, k in recv), h, e)
        return self.mapret(target, m, recv, isself, fresh, kws)

    def mapret(self, target, m, recv, isself, fresh=False, kws=()):
        if target is None or fresh:
            return EMPTY
        out = set()
        for r, k in self.eff.sum[target].ret:
            if r[0] == 'param':
                for x, k2 in self.argument(m, r[1], kws):
                    out.add((x, k2 if k == 0 else k if k == 'c' else 1))
            elif r[0] in ('glob', 'class'):
                out.add((r, k))
            elif r[0] in ('self', 'me'):
                if isself:
                    out.add((r, k))
                else:
                    out |= {(x, 'c' if k == 'c' else 1) for x, _ in recv}
        return frozenset(out)


def own(body):
    """statements that are always reached, unless the function is left before (both branches of an if count as one)"""
    for s in body:
        yield s
        if isinstance(s, ast.If) and s.orelse:
            if leaves(s.body):
                yield from own(s.orelse)
            elif leaves(s.orelse):
                yield from own(s.body)
        elif isinstance(s, ast.With):
            yield from own(s.body)


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def sub_iter(v, it):
    return sub(v)


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
