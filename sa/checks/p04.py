"""For every element that changes photon directions, the writes to `dir` and to `polarization`
are extracted from the value-flow terms of the final columns.  Each changed direction must come
with a polarization write for the same photons whose value is the parallel transport of the old
polarization from the old to that new direction.  The transport matrix, the source polarization
vectors, pointing and lens code are compared with specifications."""
from ..model import Model
from ..flow import writes
from ..term import show, contains, const, idx, mk, is_const
from ..equiv import compare
from ..speccheck import run_specs
from .p02 import locate

SPECS = True
PT = 'marxs.math.polarization.parallel_transport'


def col(name):
    return lambda x: x.op == 'col' and is_const(x.args[1], name)


def run(prog, chk):
    run_specs(prog, chk, 'P04', floor=1)
    chk.rule('carried', 'a new direction comes with a polarization write for the same photons', floor=4)
    chk.rule('transport', 'the new polarization is the old one transported from the old to the new direction', floor=4)
    M = Model(prog)
    for e in M.entries(('hit',)):
        s = e.s
        if s.err or s.tab is None:
            continue
        where = M.where_of(e, 'process_photons')
        dw = writes(s.col(const('dir')), 'dir')
        pw = writes(s.col(const('polarization')), 'polarization')
        for w in dw:
            if w.kind != 'upd' or not contains(w.value, lambda x: True):
                continue
            key = f'{e.short}'
            chk.ok('carried', key)
            same = [p for p in pw if p.kind == 'upd' and p.path[0] is w.path[0]]
            if not pw:
                chk.bad('carried', key, 'the direction is changed, the polarization is not', locate(s, const('dir'), w) or where)
                continue
            if not same:
                chk.unsure('carried', key, 'polarization written with another selection')
                continue
            for p in same:
                chk.ok('transport', key)
                pv = p.value
                loc = locate(s, const('polarization'), p) or where
                if not contains(pv, col('polarization')) and not contains(pv, lambda x: x.op == 'mu'):
                    chk.bad('transport', key, f'new polarization does not depend on the old one: {show(pv, 160)}', loc)
                    continue
                if not contains(pv, lambda x: x in subs(w.value)) and False:
                    continue
                if pv.op == 'call' and not isinstance(pv.args[0], str) and pv.args[0].op == 'func' and pv.args[0].args[0] == PT:
                    a = pv.args[1]
                    if len(a) != 3:
                        chk.unsure('transport', key, show(pv, 160))
                        continue
                    want = [(a[0], idx(colterm(s, 'dir'), w.path[0]), 'old direction'),
                            (a[1], w.value, 'new direction'),
                            (a[2], idx(colterm(s, 'polarization'), w.path[0]), 'old polarization')]
                    for got, exp, nm in want:
                        if exp is None or got is exp:
                            continue
                        v, d = compare(got, exp)
                        if v == 'differ':
                            chk.bad('transport', key, f'{nm}: {show(got, 140)} where {show(exp, 140)} is needed', loc)
                        elif v == 'unknown':
                            chk.unsure('transport', key, f'{nm}: {d}')
                elif not contains(pv, lambda x: x.op == 'call' and not isinstance(x.args[0], str) and x.args[0].op == 'func'
                                  and x.args[0].args[0] == PT):
                    chk.unsure('transport', key, show(pv, 160))
    chk.count('functions_inlined', len(M.functions))


def subs(t):
    return ()


def colterm(s, name):
    return mk('col', s.start, const(name)) if False else base_col(s, name)


def base_col(s, name):
    from ..term import subterms
    for x in subterms(s.col(const(name))):
        if x.op == 'col' and is_const(x.args[1], name):
            return x
    return mk('col', mk('tabver', const('?')), const(name))
