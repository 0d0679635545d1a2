"""Where random numbers come from: every draw uses the global numpy stream (one seed controls a simulation), takes place
when photons are processed and not when modules are imported or objects are defined, is never cached, and does not
depend on the clock, the process or the order of a set.  Names are resolved through imports; "draws" is closed over
the calls that can be resolved.  In addition, every specification of a function that draws says which distribution each
value comes from, with one draw per photon."""
import ast
import os
import re
from ..equiv import load_specs, check_spec

SPECS = True

DRAW = {'rand', 'randn', 'randint', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'normal', 'choice', 'shuffle', 'permutation', 'poisson',
        'exponential', 'standard_normal', 'binomial', 'multinomial', 'gamma', 'beta', 'chisquare', 'dirichlet', 'f', 'geometric', 'gumbel',
        'hypergeometric', 'laplace', 'logistic', 'lognormal', 'logseries', 'multivariate_normal', 'negative_binomial', 'noncentral_chisquare',
        'noncentral_f', 'pareto', 'power', 'rayleigh', 'standard_cauchy', 'standard_exponential', 'standard_gamma', 'standard_t', 'triangular',
        'vonmises', 'wald', 'weibull', 'zipf', 'bytes', 'random_integers'}
OTHER = ('random.', 'secrets.', 'uuid.', 'os.urandom', 'os.getrandom', 'jax.random', 'torch.rand')
CLOCK = ('time.time', 'time.time_ns', 'time.monotonic', 'time.perf_counter', 'time.process_time', 'datetime.datetime.now', 'datetime.datetime.utcnow',
         'datetime.datetime.today', 'datetime.date.today', 'os.getpid', 'os.getppid', 'threading.get_ident', 'astropy.time.Time.now')
CACHE = {'lru_cache', 'cache', 'cached_property', 'lazyproperty'}
QUIET = ('marxs.visualization', 'marxs.math.geometry', 'marxs.math.utils', 'marxs.math.rotations', 'marxs.math.polarization', 'marxs.reduction',
         'marxs.analysis', 'marxs.base', 'marxs.simulator', 'marxs.optics.baffles', 'marxs.design.rowland',
         'marxs.design.bendgratings')
# the date of a simulation is written to headers by these modules
DATED = ('marxs.source.basesources', 'marxs.base.base', 'marxs.reduction.lsfparm', 'marxs.visualization.threejsjson', 'marxs.missions.chandra')


def local_imports(node):
    out = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
            for a in x.names:
                out[a.asname or a.name] = f'{x.module}.{a.name}'
    return out


def dotted(prog, e, mod, local, imps=()):
    r = e
    tail = []
    while isinstance(r, (ast.Attribute, ast.Call)):
        if isinstance(r, ast.Attribute):
            tail.append(r.attr)
        r = r.value if isinstance(r, ast.Attribute) else r.func
    if isinstance(r, ast.Name) and r.id in imps:
        return '.'.join([imps[r.id]] + tail[::-1])
    if not isinstance(r, ast.Name) or r.id in local:
        return None
    ent = prog.expr_to_entity(e, mod)
    return ent[1] if ent[0] == 'ext' else None


def is_draw(d):
    return d is not None and d.startswith('numpy.random.') and d.rpartition('.')[2] in DRAW or d is not None and d.startswith('scipy.stats') and d.endswith('.rvs')


class Scan:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = {q: v for q, v in prog.funcs.items() if q.split('.')[0] == 'marxs'}
        self.qual = {id(v[0]): q for q, v in self.funcs.items()}
        self.draws, self.calls, self.clock, self.bad = {}, {}, {}, []
        self.n = 0
        for q, (node, mod, ci) in self.funcs.items():
            self.scan(q, node, mod, ci)
        self.closed = set(self.draws)
        while True:
            new = {q for q, cs in self.calls.items() if q not in self.closed and any(c in self.closed for c in cs)}
            if not new:
                break
            self.closed |= new

    def locals_of(self, node):
        a = node.args
        out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        return out | {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def scan(self, q, node, mod, ci):
        loc = self.locals_of(node)
        imps = local_imports(node)
        cs = self.calls[q] = set()
        for x in [y for s in node.body for y in ast.walk(s)]:
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load):
                d = dotted(self.prog, x, mod, loc, imps)
                if d is not None:
                    self.external(q, d, x, mod)
            if isinstance(x, ast.Call):
                self.n += 1
                f = x.func
                if any(k.arg == 'random_state' and not (isinstance(k.value, ast.Constant) and k.value.value is None) for k in x.keywords):
                    self.bad.append((q, 'a separate random_state', x, mod))
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and ci is not None:
                    fm = self.prog.find_method(ci, f.attr)
                    if fm and fm[1] is not None:
                        cs.add(self.qual.get(id(fm[1])))
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                        f.value.func.id == 'super' and ci is not None:
                    fm = self.prog.find_method(ci, f.attr, after=ci)
                    if fm and fm[1] is not None:
                        cs.add(self.qual.get(id(fm[1])))
                elif isinstance(f, (ast.Name, ast.Attribute)):
                    r = f
                    while isinstance(r, ast.Attribute):
                        r = r.value
                    if isinstance(r, ast.Name) and r.id not in loc:
                        ent = self.prog.expr_to_entity(f, mod)
                        if ent[0] == 'func':
                            cs.add(self.qual.get(id(ent[1])))
                        elif ent[0] == 'class':
                            fm = self.prog.find_method(ent[1], '__init__')
                            if fm and fm[1] is not None:
                                cs.add(self.qual.get(id(fm[1])))
        cs.discard(None)

    def external(self, q, d, x, mod):
        if is_draw(d):
            self.draws.setdefault(q, []).append((d, x))
        elif d.startswith('numpy.random.') or d.startswith(OTHER) or d in ('random', 'secrets', 'uuid'):
            self.bad.append((q, d, x, mod))
        elif d in CLOCK or d.startswith('datetime.') and d.rpartition('.')[2] in ('now', 'today', 'utcnow'):
            self.clock.setdefault(q, []).append((d, x))


def run(prog, chk):
    chk.rule('stream', 'every random number is drawn from the global numpy stream, which is never seeded or replaced by the package', floor=5)
    chk.rule('import', 'nothing is drawn when a module is imported, a class is defined or a default value is evaluated', floor=20)
    chk.rule('fresh', 'functions that draw random numbers are not cached', floor=5)
    chk.rule('clock', 'the clock, process number or host never influence anything but dates in headers', floor=20)
    chk.rule('quiet', 'geometry, containers, displays, analysis and responses do not use random numbers', floor=20)
    chk.rule('order', 'random numbers are not drawn in the order of a set', floor=5)
    sc = Scan(prog)
    chk.count('call_sites', sc.n)
    chk.count('functions_that_draw', len(sc.closed))

    def where(q, x):
        node, mod, ci = sc.funcs[q]
        return (mod.rel(), x.lineno, q)

    for q in sorted(sc.closed):
        node, mod, ci = sc.funcs[q]
        short = q.replace('marxs.', '', 1)
        chk.ok('stream', short)
        chk.ok('fresh', short)
        chk.ok('order', short)
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            n = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '')
            if n in CACHE:
                chk.bad('fresh', short, f'draws random numbers, but {n} returns the same value for every further call', where(q, node))
        for x in ast.walk(node):
            its = [(x.iter, x.body)] if isinstance(x, ast.For) else [(g.iter, [x]) for g in x.generators] if isinstance(
                x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) else []
            for it, body in its:
                if isinstance(it, (ast.Set, ast.SetComp)) or isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('set', 'frozenset'):
                    if any(any(y is z[1] for z in sc.draws.get(q, ())) for b in body for y in ast.walk(b)):
                        chk.bad('order', short, 'draws random numbers in the (arbitrary) order of a set', where(q, x))
    for q, d, x, mod in sc.bad:
        chk.bad('stream', q.replace('marxs.', '', 1), f'{d} is not the global numpy stream: a seed does not control it'
                if not d.endswith(('.seed', '.set_state')) else f'{d} changes the state of the random numbers of the user', where(q, x))
    for q, (node, mod, ci) in sorted(sc.funcs.items()):
        short = q.replace('marxs.', '', 1)
        chk.ok('clock', short)
        if q in sc.clock:
            if not q.startswith(DATED):
                chk.bad('clock', short, f'result depends on {sc.clock[q][0][0]}', where(q, sc.clock[q][0][1]))
            elif q in sc.draws:
                cl = {id(x) for _, x in sc.clock[q]}
                for d, x in sc.draws[q]:
                    for c in ast.walk(node):
                        if isinstance(c, ast.Call) and c.func is x and any(id(y) in cl for a in c.args + c.keywords for y in ast.walk(a)):
                            chk.bad('clock', short, f'{d} depends on the clock', where(q, c))
        if q.startswith(QUIET) and not q.startswith('marxs.math.random'):
            chk.ok('quiet', short)
            if q in sc.draws:
                chk.bad('quiet', short, f'uses random numbers ({sc.draws[q][0][0]}): the same call gives different results', where(q, sc.draws[q][0][1]))
    distributions(prog, chk)
    # import time
    for mn, mod in sorted(prog.modules.items()):
        if mn.split('.')[0] != 'marxs' or '.tests' in mn:
            continue
        chk.ok('import', mn)
        for x in import_time(mod.tree):
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(getattr(x, 'ctx', None), ast.Load):
                d = dotted(prog, x, mod, ())
                if d is None:
                    continue
                if d.startswith('numpy.random.') and d.rpartition('.')[2] in DRAW | {'seed', 'set_state', 'default_rng', 'RandomState'} or \
                        d.startswith(OTHER):
                    par = next((p for p in ast.walk(mod.tree) if isinstance(p, ast.Call) and p.func is x), None)
                    if par is not None:
                        chk.bad('import', mn, f'{d} is called when the module is imported', (mod.rel(), x.lineno, mn))
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                r = x.func
                while isinstance(r, ast.Attribute):
                    r = r.value
                if not isinstance(r, ast.Name):
                    continue
                ent = prog.expr_to_entity(x.func, mod)
                q = sc.qual.get(id(ent[1])) if ent[0] == 'func' else None
                if q in sc.draws and always(sc.funcs[q][0], {id(y) for _, y in sc.draws[q]}):
                    chk.bad('import', mn, f'{q}, which draws random numbers, is called when the module is imported', (mod.rel(), x.lineno, mn))


def distributions(prog, chk):
    chk.rule('draw', 'values are drawn from the specified distribution, once for each photon or element', floor=10)
    specs = load_specs(prog)
    opaque = {s.target for s in specs if s.opts.get('contract')}
    for s in specs:
        if s.prop == 'PXX' or not any(re.search(r'\brandom\.|\.rvs\(|RandomArbitraryPdf', ast.unparse(x)) for x in s.node.body):
            continue
        short = s.target.replace('marxs.', '', 1)
        try:
            res = list(check_spec(prog, s, opaque))
        except Exception as e:
            if os.environ.get('SPEC_STRICT'):
                raise
            chk.unsure('draw', short, f'not analysable: {type(e).__name__}')
            continue
        for part, v, d, where in res:
            key = f'{short}:{part}'
            chk.ok('draw', key)
            if v == 'differ':
                chk.bad('draw', key, d, where)
            elif v == 'unknown':
                chk.unsure('draw', key, d)


def always(fn, draws):
    """a draw that does not depend on a condition"""
    st = list(fn.body)
    while st:
        s = st.pop()
        if isinstance(s, (ast.If, ast.While, ast.Try, ast.IfExp, ast.FunctionDef, ast.Lambda)):
            continue
        if id(s) in draws:
            return True
        st.extend(ast.iter_child_nodes(s))
    return False


def import_time(tree):
    st = list(tree.body)
    while st:
        s = st.pop()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.extend(s.decorator_list)
            st.extend(x for x in s.args.defaults + s.args.kw_defaults if x is not None)
            continue
        if isinstance(s, ast.Lambda):
            continue
        yield s
        st.extend(ast.iter_child_nodes(s))
