#!/usr/bin/env python3
"""Development aid (no registered check uses it): single small semantic changes of the sources; shows which ones no check reports.
  automut.py <file pattern> [function pattern] [-n max] [-v]"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from refac import copy_src

FN = {'sin': 'cos', 'cos': 'sin', 'arcsin': 'arccos', 'arccos': 'arcsin', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'floor': 'ceil', 'ceil': 'floor', 'zeros': 'ones', 'ones': 'zeros',
      'tan': 'sin', 'logical_and': 'logical_or', 'logical_or': 'logical_and', 'argmin': 'argmax', 'h2e': 'e2h', 'e2h': 'h2e', 'hstack': 'vstack', 'cumsum': 'cumprod', 'append': 'extend', 'minimum': 'maximum', 'maximum': 'minimum'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(fn):
    """(description, function(tree copy of fn)) by node index"""
    nodes = list(ast.walk(fn))
    out = []
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Raise) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, ast.Call) and ast.unparse(n.func) in ('warn', 'warnings.warn', 'logger.warning', 'print'):
            for x in ast.walk(n): skip.add(id(x))
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list + [n.args] + ([n.returns] if n.returns else []):
                for x in ast.walk(d): skip.add(id(x))
    for j, n in enumerate(nodes):
        if id(n) in skip: continue
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: ast.Mult}
            if type(n.op) in sw:
                out.append((j, 'op', lambda m, o=sw[type(n.op)]: setattr(m, 'op', o())))
            if isinstance(n.op, (ast.Sub, ast.Div)):
                out.append((j, 'swapop', lambda m: (lambda a, b: (setattr(m, 'left', b), setattr(m, 'right', a)))(m.left, m.right)))
            if isinstance(n.op, (ast.Mult, ast.Div)): out.append((j, 'dropfactor', 'LEFT'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((j, 'cmp', lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]())))
        elif isinstance(n, ast.BoolOp):
            out.append((j, 'boolop', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert, ast.Not)): out.append((j, 'dropunary', 'OPERAND'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((j, 'const', lambda m: setattr(m, 'value', m.value + 1)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): out.append((j, 'bool', lambda m: setattr(m, 'value', not m.value)))
        elif isinstance(n, ast.Attribute) and n.attr in FN: out.append((j, 'fn', lambda m: setattr(m, 'attr', FN[m.attr])))
        elif isinstance(n, ast.Name) and n.id in FN: out.append((j, 'fn', lambda m: setattr(m, 'id', FN[m.id])))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]): out.append((j, 'swapargs', lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1])))
            if n.keywords: out.append((j, 'dropkw', lambda m: m.keywords.pop()))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Constant): out.append((j, 'dropidx', 'VALUE'))
        elif isinstance(n, ast.Dict) and n.keys: out.append((j, 'delkey', lambda m: (m.keys.pop(), m.values.pop())))
        elif isinstance(n, (ast.List, ast.Tuple)) and n.elts and isinstance(n.ctx, ast.Load) and not isinstance(fn.body[-1], type(None)): out.append((j, 'delelt', lambda m: m.elts.pop()))
        elif isinstance(n, ast.If): out.append((j, 'negif', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b):
                    if id(s) in skip and not isinstance(s, ast.Raise): continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and any(a.arg == 'photons' for a in fn.args.args) and not isinstance(getattr(s, 'value', None), ast.Constant) and \
                            not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id != 'photons'):
                        out.append((j, f'guard {f} {k}', lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.If(ast.parse('len(photons) > 1', mode='eval').body, [getattr(m, f)[k]], []))))
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name): continue
                        out.append((j, f'del {f} {k}', lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Pass())))
    return nodes, out


def make(src, fname_idx, mj):
    tree = ast.parse(src)
    fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
    fn = fns[fname_idx]
    nodes, ms = mutants(fn)
    j, what, act = ms[mj]
    n = nodes[j]
    old = ast.unparse(n).split('\n')[0][:80]
    line = getattr(n, 'lineno', fn.lineno)
    if isinstance(act, str):
        new = {'LEFT': lambda: n.left, 'OPERAND': lambda: n.operand, 'VALUE': lambda: n.value}[act]()
        class X(ast.NodeTransformer):
            def generic_visit(self, q): return new if q is n else super().generic_visit(q)
        X().visit(tree)
        desc = f'{what}: {old} -> {ast.unparse(new)[:60]}'
    else:
        if what.startswith(('del ', 'guard ')):
            _, f, k = what.split(); s = getattr(n, f)[int(k)]
            old = ast.unparse(s).split('\n')[0][:80]; line = s.lineno
        act(n)
        desc = f'{what}: {old} -> {ast.unparse(n).splitlines()[0][:80] if not what.startswith(("del ", "guard ")) else ""}'
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n', line, desc


def run(job):
    rel, src, fi, mj, q = job
    try:
        new, line, desc = make(src, fi, mj)
        compile(new, rel, 'exec')
    except Exception as e: return None
    tmp = tempfile.mkdtemp(prefix='amut')
    try:
        copy_src(tmp)
        open(os.path.join(tmp, rel), 'w', encoding='utf8').write(new)
        r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'runall.py')], env=dict(os.environ, MARXS_SRC=tmp), capture_output=True, text=True)
        d = json.loads(r.stdout.strip().splitlines()[-1])
        fired = [p for p, v in d.items() if v['viol']]
        low = [p for p, v in d.items() if v['low']]
        return rel, line, q, desc, fired, low
    except Exception as e: return rel, line, q, desc, [], ['CRASH ' + r.stderr[-200:]]
    finally: shutil.rmtree(tmp)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    nmax = int(sys.argv[sys.argv.index('-n') + 1]) if '-n' in sys.argv else 60
    if '-n' in sys.argv: a.remove(sys.argv[sys.argv.index('-n') + 1])
    jobs = []
    for d, dirs, files in os.walk('/repo/marxs'):
        if any(x in d for x in ('/tests', '/test', 'extern')): continue
        for f in files:
            p = os.path.join(d, f); rel = os.path.relpath(p, '/repo')
            if not f.endswith('.py') or a and a[0] not in rel: continue
            src = ast.unparse(ast.parse(open(p, encoding='utf8').read()))
            tree = ast.parse(src)
            fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
            cls = {}
            for c in ast.walk(tree):
                if isinstance(c, ast.ClassDef):
                    for m in c.body:
                        cls[id(m)] = c.name
            for fi, fn in enumerate(fns):
                q = (cls.get(id(fn), '') + '.' + fn.name).strip('.')
                if len(a) > 1 and a[1] not in q: continue
                if q.endswith(('__repr__', '__str__')): continue
                for mj in range(len(mutants(fn)[1])): jobs.append((rel, src, fi, mj, q))
    random.Random(int(os.environ.get('SEED', '1'))).shuffle(jobs)
    jobs = jobs[:nmax]
    tot = hit = 0
    per = {}
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, jobs):
            if r is None: continue
            rel, line, q, desc, fired, low = r
            tot += 1; hit += bool(fired)
            e = per.setdefault((rel, q), [0, 0]); e[0] += 1; e[1] += bool(fired)
            if low: print('LOW', rel, line, q, desc, low)
            if not fired and '-q' not in sys.argv: print(f'missed {rel}:{line} {q} | {desc}', flush=True)
            elif '-v' in sys.argv: print(f'caught {rel}:{line} {q} | {desc} {fired}')
    print(f'{hit} of {tot} reported')
    if '-q' in sys.argv:
        for k, (n, h) in sorted(per.items()): print(f'{h}/{n}', *k)
