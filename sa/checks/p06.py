"""Every element, container, pointing model and simulation step is evaluated over value-flow terms with a symbolic photon
list.  The list that comes back must be the list that went in (same object, no selection of rows), no call on any path adds, removes or
sorts rows, and no column that came in is removed or renamed."""
from ..interp import Tab, PhiV, ROWOPS, T
from ..model import Model
from ..term import show, const, is_const, cval, NONE

# simulation steps implemented as a function
STEPS = {'missions.athena.spo.spomounting', 'missions.mitsnl.catgrating.catsupportbars', 'simulator.simulator.propagate'}
# classes with a __call__ for photons that are part of a simulation
OTHER = {'base.base.TagVersion', 'missions.AXIS.AXIS.MirrorGeometricScaling', 'optics.filter.GlobalEnergyFilter'}
# table of MARX and photon list are joined (MARX selects and sorts the photons); sources make a new list
NEWLIST = {'optics.marx.MarxMirror', 'source.basesources.Source', 'missions.arcus.arfrmf.FiltersQE'}


def same(v, tab):
    """True, False or None (not known)"""
    if isinstance(v, PhiV):
        a, b = same(v.a, tab), same(v.b, tab)
        return False if a is False or b is False else None if a is None or b is None else True
    if isinstance(v, Tab):
        return v.tid == tab.tid and v.sel is None
    if v is NONE:
        return False
    return None


def mine(t, tab):
    while t is not None:
        if t.tid == tab.tid:
            return True
        t = t.parent
    return False


def run(prog, chk):
    chk.rule('returned', 'the photon list that is returned is the one passed in, with all its rows', floor=30)
    chk.rule('rows', 'rows of the photon list are never added, removed or reordered', floor=30)
    chk.rule('columns', 'columns of the photon list passed in are never removed or renamed', floor=30)
    M = Model(prog)
    ent = M.entries()
    for e in ent:
        s = e.s
        step = e.kind in ('hit', 'pp', 'call') or e.short in STEPS or e.short in OTHER
        meth = {'hit': 'process_photons', 'pp': 'process_photons', 'call': '__call__', 'other': '__call__'}.get(e.kind)
        where = M.where_of(e, meth)
        if s.err:
            chk.unsure('rows', e.short, s.err)
            continue
        if step and e.short not in NEWLIST:
            r = same(s.ret, s.tab)
            chk.ok('returned', e.short)
            if r is False:
                what = 'nothing' if s.ret is NONE else 'another table or a selection of rows'
                chk.bad('returned', e.short, f'returns {what} instead of the photon list', where)
            elif r is None:
                chk.unsure('returned', e.short, str(s.ret)[:200])
        chk.ok('rows', e.short)
        chk.ok('columns', e.short)
        for ev in s.events:
            if ev.kind != 'tabstruct' or not mine(ev.data['tab'], s.tab):
                continue
            m = ev.data['meth']
            args = ev.data.get('args', ())
            if m in ROWOPS:
                chk.bad('rows', e.short, f'.{m}() changes the rows of the photon list', ev.where)
            elif m == '__delitem__' and not (args and is_const(args[0]) and isinstance(cval(args[0]), str)):
                chk.unsure('rows', e.short, f'del photons[{show(args[0], 80)}]')
            elif m in ('remove_column', 'remove_columns', '__delitem__', 'keep_columns', 'rename_column', 'rename_columns'):
                new = {x.name for x in s.events if x.kind == 'addcol' and 'name' in x.data}
                if args and (args[0] in new or is_const(args[0]) and isinstance(cval(args[0]), str) and const(cval(args[0])) in new):
                    continue        # a temporary column made here
                chk.bad('columns', e.short, f'{m} {show(args[0], 80) if args else ""} changes the columns that came in', ev.where)
    chk.count('entry_points', len(ent))
    chk.count('functions', len(M.functions))
