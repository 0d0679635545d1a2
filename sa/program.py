"""Program model: modules, classes, functions of marxs, from source only."""
import ast
import hashlib
import os
import warnings

ROOT = os.environ.get('MARXS_SRC', '/repo')


class _NoMatch(ast.NodeTransformer):
    """simple match statements -> if chains"""
    n = 0

    def test(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.Call(ast.Name('isinstance', ast.Load()), [subj, p.cls], [])
        if isinstance(p, ast.MatchOr):
            t = [self.test(q, subj) for q in p.patterns]
            return None if None in t else ast.BoolOp(ast.Or(), t)
        if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
            return ast.Constant(True)
        return None

    def visit_Match(self, n):
        self.generic_visit(n)
        pre = []
        subj = n.subject
        if not isinstance(subj, (ast.Name, ast.Attribute)):
            _NoMatch.n += 1
            name = f'__match{_NoMatch.n}'
            pre = [ast.Assign([ast.Name(name, ast.Store())], subj)]
            subj = ast.Name(name, ast.Load())
        chain = []
        for c in n.cases:
            t = self.test(c.pattern, subj)
            if t is None:
                return n
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, c.guard])
            chain.append((t, c.body))
        orelse = []
        for t, body in reversed(chain):
            orelse = body if isinstance(t, ast.Constant) and t.value is True else [ast.If(t, body, orelse)]
        out = pre + (orelse or [ast.Pass()])
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out


def nomatch(tree):
    if any(isinstance(x, ast.Match) for x in ast.walk(tree)) if hasattr(ast, 'Match') else False:
        tree = _NoMatch().visit(tree)
    return tree


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = nomatch(ast.parse(src, path))
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.defs = {}        # name -> ('class',ClassInfo)|('func',node)|('import',dotted)|('assign',[nodes])
        self.star = []        # star-imported modules

    def rel(self):
        return os.path.relpath(self.path, ROOT)


class ClassInfo:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.name, self.qual = node, mod, node.name, qual
        self.bases = []
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self._mro = None

    def __repr__(self):
        return f'<class {self.qual}>'


class Program:
    def __init__(self, root=None, pkg='marxs', specs=False):
        self.root = root or ROOT
        self.modules = {}
        self.classes = {}       # qual -> ClassInfo
        self.funcs = {}         # qual -> (node, mod, classinfo or None)
        self.digest = hashlib.sha256()
        bases = [(self.root, os.path.join(self.root, pkg))]
        if specs:
            home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            bases.append((home, os.path.join(home, 'spec')))
        for root, base in bases:
          for d, dirs, files in os.walk(base):
              dirs[:] = sorted(x for x in dirs if x not in ('tests', 'test', '__pycache__', 'data'))
              for f in sorted(files):
                  if not f.endswith('.py') or f in ('conftest.py',):
                      continue
                  p = os.path.join(d, f)
                  rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                  name = rel[:-9] if rel.endswith('.__init__') else rel
                  src = open(p, encoding='utf8').read()
                  self.digest.update(src.encode())
                  self.modules[name] = Module(name, p, src)
        for m in self.modules.values():
            self._collect(m)
        for c in list(self.classes.values()):
            self._bases(c)

    # -------------------------------------------------------- collection
    def _collect(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.ClassDef):
                    ci = ClassInfo(s, m, f'{m.name}.{s.name}')
                    self.classes[ci.qual] = ci
                    m.defs[s.name] = ('class', ci)
                    for b in s.body:
                        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter')
                                   for d in b.decorator_list):
                                if any(isinstance(d, ast.Attribute) and d.attr == 'setter'
                                       for d in b.decorator_list):
                                    ci.setters[b.name] = b
                                self.funcs[f'{ci.qual}.{b.name}.setter'] = (b, m, ci)
                                continue
                            ci.methods[b.name] = b
                            self.funcs[f'{ci.qual}.{b.name}'] = (b, m, ci)
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                for n in ([t] if isinstance(t, ast.Name) else
                                          t.elts if isinstance(t, (ast.Tuple, ast.List)) else []):
                                    if isinstance(n, ast.Name):
                                        ci.attrs[n.id] = b.value if isinstance(t, ast.Name) else None
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            ci.attrs[b.target.id] = b.value
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs[s.name] = ('func', s)
                    self.funcs[f'{m.name}.{s.name}'] = (s, m, None)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.defs[a.asname] = ('import', a.name)
                        else:
                            m.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    base = self.absname(m, s)
                    for a in s.names:
                        if a.name == '*':
                            m.star.append(base)
                        else:
                            m.defs[a.asname or a.name] = ('import', base + '.' + a.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                old = m.defs.get(n.id)
                                if old and old[0] == 'assign':
                                    old[1].append(s)
                                else:
                                    m.defs[n.id] = ('assign', [s])
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.defs.setdefault(n.id, ('assign', [s]))
                    for fld in ('body', 'orelse', 'finalbody'):
                        visit(getattr(s, fld, []) or [])
                    for h in getattr(s, 'handlers', []):
                        visit(h.body)
        visit(m.tree.body)

    def absname(self, m, s):
        if not s.level:
            return s.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        return '.'.join(parts + ([s.module] if s.module else []))

    # -------------------------------------------------------- resolution
    def resolve(self, dotted, depth=0):
        """-> ('module',name)|('class',ci)|('func',node,mod)|('assign',mod,name,nodes)|('ext',dotted)|('missing',dotted)"""
        if depth > 20:
            return ('ext', dotted)
        if dotted in self.modules:
            return ('module', dotted)
        if dotted.split('.')[0] != 'marxs':
            return ('ext', dotted)
        head, _, last = dotted.rpartition('.')
        if head in self.modules:
            return self.resolve_in(self.modules[head], last, depth + 1)
        r = self.resolve(head, depth + 1) if head else ('ext', dotted)
        if r[0] == 'module':
            return self.resolve_in(self.modules[r[1]], last, depth + 1)
        if r[0] == 'class':
            return ('classattr', r[1], last)
        if r[0] == 'assign':
            return ('assignattr', r, last)
        return ('missing', dotted)

    def resolve_in(self, m, name, depth=0):
        d = m.defs.get(name)
        if d is None:
            if m.name + '.' + name in self.modules:
                return ('module', m.name + '.' + name)
            for s in m.star:
                if s in self.modules:
                    al = self.all_of(self.modules[s])
                    if (al is None and not name.startswith('_')) or (al is not None and name in al):
                        r = self.resolve_in(self.modules[s], name, depth + 1)
                        if r[0] != 'missing':
                            return r
                else:
                    return ('ext', s + '.' + name)
            return ('missing', m.name + '.' + name)
        if d[0] == 'class':
            return ('class', d[1])
        if d[0] == 'func':
            return ('func', d[1], m)
        if d[0] == 'import':
            return self.resolve(d[1], depth + 1)
        return ('assign', m, name, d[1])

    def all_of(self, m):
        d = m.defs.get('__all__')
        if d and d[0] == 'assign' and isinstance(d[1][0], ast.Assign):
            try:
                return ast.literal_eval(d[1][0].value)
            except Exception:
                return None
        return None

    def expr_to_entity(self, node, m):
        """resolve Name/Attribute chains at module scope"""
        if isinstance(node, ast.Name):
            return self.resolve_in(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.expr_to_entity(node.value, m)
            if b[0] == 'module':
                return self.resolve_in(self.modules[b[1]], node.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
            if b[0] == 'class':
                return ('classattr', b[1], node.attr)
        return ('missing', ast.dump(node))

    def _bases(self, c):
        for b in c.node.bases:
            e = self.expr_to_entity(b, c.mod)
            c.bases.append(e[1] if e[0] == 'class' else (e[1] if e[0] == 'ext' else ast.unparse(b)))

    def mro(self, c):
        if c._mro is None:
            seqs = []
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    seqs.append(list(self.mro(b)))
            seqs.append([b for b in c.bases if isinstance(b, ClassInfo)])
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise TypeError('mro ' + c.qual)
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
            c._mro = out
        return c._mro

    def ext_bases(self, c):
        return [b for k in self.mro(c) for b in k.bases if not isinstance(b, ClassInfo)]

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else self.mro(after)[1:]
        for k in mro:
            if name in k.methods:
                return k, k.methods[name]
            if name in k.attrs:
                return k, None
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
            if name in k.methods:
                return None
        return None

    def is_sub(self, c, base):
        return base in self.mro(c)

    def subclasses(self, base):
        return [c for c in self.classes.values() if base in self.mro(c)]

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            # allow lookup through re-exports
            r = self.resolve(qual)
            if r[0] == 'class':
                return r[1]
            raise KeyError(qual)
        return c

    def instance_assigned(self, c):
        """names assigned on self anywhere in the class hierarchy"""
        key = '_ia'
        if not hasattr(c, key):
            s = set()
            for k in self.mro(c):
                for n in list(k.methods.values()) + list(k.setters.values()):
                    a = n.args.posonlyargs + n.args.args
                    if not a:
                        continue
                    me = a[0].arg
                    for x in ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                                isinstance(x.value, ast.Name) and x.value.id == me:
                            s.add(x.attr)
            setattr(c, key, s)
        return getattr(c, key)
