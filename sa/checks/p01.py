"""Value-flow analysis of the photon weight.  Every element, container step and photon
function is evaluated over value-flow terms with a symbolic photon list; the term of the
final 'probability' column is decomposed into the writes that produced it and every write
has to be zero or (old weight of the same rows) x (factor), the factor having to be bounded
by construction or by a raise on the path that reaches the write."""
from ..speccheck import run_specs
from ..model import Model, istab, colstores
from ..flow import Mult, Rows, in_unit, range_guards, guarded, writes
from ..term import (show, contains, const, is_const, is_num, cval, idx, mk, not_, subterms, div, TRUE, FALSE, call)

PROB = 'probability'

# which rows may be set to zero, by element: (entry suffix -> accepted masks)
ZERO = {
    'optics.baffles.Baffle': ('miss',),
    'missions.arcus.boom.Rod': ('hit',),
    'missions.athena.spo.spomounting': ('neg', 'xou'),
    'missions.mitsnl.catgrating.catsupportbars': ('neg', 'facet'),
}


def negmask(m, col):
    """m selects rows whose column col carries the 'not hit' marker (-1): True/False/None"""
    def iscol(x):
        return x.op == 'col' and is_const(x.args[1], col)
    inv = False
    if m.op == 'not':
        m, inv = m.args[0], True
    a = b = None
    if m.op in ('lt', 'le', 'eq', 'ne'):
        a, b = m.args
    else:
        return None
    r = None
    if m.op in ('eq', 'ne'):
        x, y = (a, b) if iscol(a) else (b, a)
        if iscol(x) and is_num(y):
            r = (cval(y) == -1) == (m.op == 'eq') if cval(y) < 0 else False
    elif iscol(a) and is_num(b):
        r = {'lt': -1 < cval(b) <= 0, 'le': -1 <= cval(b) < 0}[m.op]
    elif iscol(b) and is_num(a):
        # a < col : true for the hit rows
        r = {'lt': None if cval(a) < -1 else False, 'le': None if cval(a) <= -1 else False}[m.op]
        if r is False and inv:
            return (-1 <= cval(a) < 0) if m.op == 'lt' else (-1 < cval(a) <= 0)
    if r is None:
        return None
    return (not r) if inv else r


def calls_unknown(f):
    """calls of code supplied from outside in f"""
    out = []
    for t in subterms(f):
        if t.op == 'call' and not isinstance(t.args[0], str):
            g = t.args[0]
            while g.op in ('attr', 'idx'):
                g = g.args[0]
            if g.op == 'sym' and g is not t.args[0]:
                out.append(t)
    return out


SPECS = True


def run(prog, chk):
    run_specs(prog, chk, 'P01', floor=1)
    chk.rule('update', 'every value stored into the probability column is 0 or the old value of the same rows times a '
             'factor; it is never replaced, squared or taken from other rows', floor=20)
    chk.rule('range', 'a factor is inside [0, 1] by construction, or the path that applies it is guarded by a raise '
             'for values < 0 and > 1', floor=12)
    chk.rule('once', 'the accumulated factor of one pass applies no supplied transmission twice', floor=10)
    chk.rule('factor', 'energy filters apply exactly the supplied transmission evaluated at the energies of the '
             'affected photons', floor=2)
    chk.rule('zero', 'absorbing elements set the weight to 0 for the documented rows only', floor=4)
    chk.rule('align', 'values stored into the weight have one entry per selected photon', floor=20)
    chk.rule('helper', 'the common column-assignment helper multiplies the weight and refuses factors outside [0, 1]',
             floor=1)
    M = Model(prog)
    mult = Mult(PROB)
    for e in M.entries():
        s = e.s
        if s.err:
            chk.unsure('update', e.short, s.err)
            continue
        w = M.where_of(e, {'hit': 'process_photons', 'pp': 'process_photons'}.get(e.kind, '__call__'))
        t = s.col(PROB)
        chk.ok('update', e.short)
        chk.ok('align', e.short)
        R = Rows(istab)
        stores = colstores(e, PROB)
        for ev in s.events:
            if ev.kind in ('colset', 'addcol') and ev.data.get('name') is const(PROB) and \
                    getattr(ev.tab, 'tid', None) == s.tab.tid:
                stores.append(ev)
        for ev in stores:
            R.rt(ev.data.get('new') or ev.value)
        for c, a, b in R.conflicts:
            chk.bad('align', e.short, f'rows disagree in {show(c, 160)}: {a} against {b}', stores[0].where)
        # final term
        alts = mult.split(t, ())
        where = stores[-1].where if stores else w
        ok_factors = []
        for g, v, f in alts:
            if v == 'keep':
                continue
            if v == 'zero':
                continue
            if v == '?':
                chk.unsure('update', e.short, show(f, 200))
                continue
            if v == 'mult':
                ok_factors.append((g, f))
                continue
            what = {'replace': 'is replaced by a value that does not contain the old weight',
                    'power': 'enters with a power other than one', 'rows': 'comes from other rows'}[v]
            if hascol_default(g):
                continue
            chk.bad('update', e.short, f'the old weight {what}: {show(f, 200)}', where)
        # individual stores: range
        for ev in stores:
            if ev.kind == 'store':
                val = ev.value
                path = tuple(ev.path)
                fs = mult.split(ev.new, ())
                fs = [(g, v, f) for g, v, f in fs if v == 'mult']
                vs = mult.split(val, path)
            else:
                vs = mult.split(ev.value, ())
            for g, v, f in vs:
                if v == 'replace' and not hascol_default(g) and ev.kind == 'store':
                    chk.bad('update', e.short, f'the old weight is replaced by {show(f, 200)}', ev.where)
                if v != 'mult':
                    continue
                key = e.short
                chk.ok('range', key)
                facts = tuple(ev.facts) + tuple(ev.pc)
                r = in_unit(f, facts)
                if r is False:
                    chk.bad('range', key, f'factor {show(f, 120)} is outside [0, 1]', ev.where)
                elif r is None:
                    unk = calls_unknown(f)
                    if unk and not half_guarded(f, facts):
                        chk.bad('range', key, 'factor computed by supplied code is applied without a check that it is '
                                f'inside [0, 1]: {show(f, 160)}', ev.where)
                    else:
                        chk.unsure('range', key, show(f, 160))
        # once
        single = {}
        for ev in stores:
            if ev.kind != 'store':
                continue
            for g, v, f in mult.split(ev.value, tuple(ev.path)):
                if v == 'mult':
                    for x, n in powers(f).items():
                        single[x] = max(single.get(x, 0), n)
        for g, f in ok_factors:
            chk.ok('once', e.short)
            for x, n in powers(f).items():
                if n > single.get(x, n) and calls_unknown(x):
                    chk.bad('once', e.short, f'{show(x, 120)} is applied {n} times in one pass', where)
        # exact factor of filters
        if e.short in ('optics.filter.EnergyFilter', 'optics.filter.GlobalEnergyFilter'):
            hit = mk('sym', 'hit')
            en = mk('col', s.start, const('energy'))
            want = call(mk('attr', mk('sym', 'self'), 'filterfunc'),
                        (idx(en, hit) if e.kind == 'hit' else en,))
            chk.ok('factor', e.short)
            if not ok_factors:
                chk.bad('factor', e.short, 'the supplied transmission never reaches the weight', w)
            for g, f in ok_factors:
                f0 = unwrap(f)
                if f0 is want:
                    continue
                if contains(f, lambda x: x is want) or not calls_unknown(f):
                    chk.bad('factor', e.short, f'weight is multiplied by {show(f, 160)} instead of the supplied '
                            'transmission', where)
                else:
                    cu = calls_unknown(f)
                    if any(x.args[0] is want.args[0] for x in cu):
                        chk.bad('factor', e.short, f'transmission evaluated as {show(cu[0], 160)}', where)
                    else:
                        chk.unsure('factor', e.short, show(f, 160))
        # zeroed rows
        if e.short in ZERO:
            spec = ZERO[e.short]
            ws = [x for x in writes(t, PROB)]
            chk.ok('zero', e.short)
            n = 0
            for x in ws:
                if not x.path or x.kind == 'replace':
                    continue
                m = x.path[0]
                hit = mk('sym', 'hit')
                n += 1
                good = None
                if spec[0] == 'miss':
                    good = True if m is not_(hit) else False if m is hit else None
                elif spec[0] == 'hit':
                    good = True if m is hit else False if m is not_(hit) else None
                else:
                    good = negmask(m, spec[1])
                if good is False:
                    chk.bad('zero', e.short, f'weight set to {show(x.value, 40)} for rows {show(m, 80)}', where)
                elif good is None:
                    chk.unsure('zero', e.short, show(m, 100))
                if not is_const(x.value, 0) and not is_const(x.value, False) and good:
                    vv = mult.split(x.value, (m,))
                    if any(v != 'zero' for _, v, _ in vv):
                        chk.bad('zero', e.short, f'absorbed photons get weight {show(x.value, 80)} instead of 0', where)
            if n == 0 and t.op == 'col':
                chk.bad('zero', e.short, 'the element no longer removes any photon weight', w)
    helper(prog, chk)
    chk.count('entries_analysed', len(M.entries()))
    chk.count('functions_inlined', len(M.functions))


def hascol_default(g):
    """guard says the column does not exist yet"""
    return any(c.op == 'not' and c.args[0].op == 'hascol' for c in g)


def powers(f):
    out = {}
    if f.op == 'poly':
        for mono, c in f.args[0]:
            for x, n in mono:
                if isinstance(n, int) and n > 0:
                    out[x] = max(out.get(x, 0), n)
    else:
        out[f] = 1
    return out


def unwrap(f):
    while f.op == 'call' and f.args[0] in ('numpy.asarray', 'numpy.array', 'numpy.clip') and f.args[1]:
        f = f.args[1][0]
    return f


def half_guarded(f, facts):
    """some raise on the path compares (something containing) the factor with both limits"""
    cs = calls_unknown(f)
    lo = hi = False
    for a, op, b in range_guards(facts):
        if is_num(a) and cval(a) >= 0 and any(contains(b, lambda x: x is c) for c in cs):
            lo = True
        if is_num(b) and cval(b) <= 1 and any(contains(a, lambda x: x is c) for c in cs):
            hi = True
    if lo and hi:
        return True
    # unknown shape of the guard: the facts mention the factor in a comparison we cannot orient
    def loose(t):
        return contains(t, lambda x: any(x is c for c in cs)) and \
            not contains(t, lambda x: x.op in ('lt', 'le'))
    return any(loose(t) for t in facts)


def helper(prog, chk):
    """_assign_col_value: weight multiplied, factor refused outside [0, 1]"""
    from ..elements import run_function
    q = next((f for f in prog.funcs if f.endswith('._assign_col_value')), None)
    if q is None:
        return chk.ok('helper', 'inlined')
    node, mod, ci = prog.funcs[q]
    chk.ok('helper', q)
    colarg = node.args.args[1].arg
    s = run_function(prog, q, params={colarg: const(PROB)})
    where = (mod.rel(), node.lineno, q)
    sym = lambda i: mk('sym', node.args.args[i].arg)
    mult = Mult(PROB)
    index, value = sym(2), sym(3)
    t = s.col(PROB)
    alts = [a for a in mult.split(t, ()) if a[1] != 'keep']
    if not alts:
        chk.bad('helper', q, 'the weight is not updated', where)
    for g, v, f in alts:
        if v in ('replace', 'power', 'rows', 'zero'):
            chk.bad('helper', q, f'weight becomes {show(f, 120)}', where)
        elif v == 'mult' and f is not value:
            chk.bad('helper', q, f'weight multiplied by {show(f, 100)} instead of the given value', where)
    for ev in s.events:
        if ev.kind == 'store' and mult.split(ev.new, ()) and any(v == 'mult' for _, v, _ in mult.split(ev.new, ())):
            facts = tuple(ev.facts) + tuple(ev.pc)
            if not guarded(value, facts):
                gs = range_guards(facts)
                if any(contains(t, lambda x: x is value) and not contains(t, lambda x: x.op in ('lt', 'le'))
                       for t in facts):
                    chk.unsure('helper', q, 'guard not understood')
                else:
                    chk.bad('helper', q, 'a factor outside [0, 1] is not refused before it is applied', ev.where)
