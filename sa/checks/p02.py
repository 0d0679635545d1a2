"""Every element is evaluated over value-flow terms with a symbolic photon list, hit mask,
intersection points and local coordinates.  For every column of the photon list the term of
its final content is decomposed into writes; the row selection of each write must imply the
hit mask, and all values must have one entry per selected photon (row typing)."""
from ..model import Model, istab
from ..flow import Rows, writes, implies_hit, Write
from ..term import show, contains, const, is_const, cval, idx, mk, not_, subterms, TRUE
from ..elements import HIT

# the one documented exception: a baffle absorbs what does NOT fall into its opening
EXEMPT = {('optics.baffles.Baffle', 'probability')}


def full_hit(t):
    return t.op == 'full' and is_const(t.args[1], True)


def run(prog, chk):
    chk.rule('rows', 'each write to a photon property selects a subset of the photons that hit the element', floor=60)
    chk.rule('align', 'values written have one entry per selected photon (never all photons into a subset)', floor=60)
    chk.rule('loop', 'in per-photon loops the photon that is read is the photon that is written', floor=1)
    chk.rule('delegate', 'elements made of several layers hand the same photons, hit mask, points and coordinates to '
             'every layer', floor=3)
    M = Model(prog)
    for e in M.entries(('hit',)):
        s = e.s
        if s.err:
            chk.unsure('rows', e.short, s.err)
            continue
        cols = {const(n) for n in s.tab.known} | set(s.final())
        where = M.where_of(e, 'process_photons')
        evs = {}
        for ev in s.events:
            if ev.kind in ('store', 'colset', 'addcol'):
                evs.setdefault(ev.data.get('new') if ev.kind == 'store' else ev.value, ev)
        for n in sorted(cols, key=show):
            if not is_const(n):
                continue
            name = cval(n)
            t = s.col(n)
            ws = writes(t, cval(n) if is_const(n) else None)
            if not ws:
                continue
            key = f'{e.short}.{name}'
            for w in ws:
                if w.kind == 'replace':
                    if any(g.op == 'not' and g.args[0].op == 'hascol' for g in w.guard):
                        continue            # the column is created here
                    if w.value.op == 'loop' or contains(w.value, lambda x: x.op in ('after',)):
                        continue
                    chk.ok('rows', key)
                    if default_fill(w.value, n):
                        continue
                    if contains(w.value, lambda x: x is HIT):
                        m = missed(w.value)
                        if not contains(m, lambda x: x is HIT or x.op == 'col' and is_const(x.args[1], name) or x.op == 'mu'):
                            chk.bad('rows', key, f'photons that miss get {show(m, 120)} instead of the value they had', locate(s, n, w) or where)
                        elif not (m.op == 'col' and is_const(m.args[1], name)):
                            chk.unsure('rows', key, show(w.value, 200))
                    else:
                        chk.bad('rows', key, f'whole column replaced by {show(w.value, 160)}', where)
                    continue
                chk.ok('rows', key)
                if (e.short, name) in EXEMPT:
                    continue
                r = implies_hit(w.path[0], HIT)
                if r is False:
                    chk.bad('rows', key, f'rows {show(w.path[0], 120)} are not restricted to photons that hit',
                            locate(s, n, w) or where)
                elif r is None:
                    chk.unsure('rows', key, show(w.path[0], 160))
                loopcheck(chk, key, w, locate(s, n, w) or where)
        R = Rows(istab)
        for ev in s.events:
            if ev.kind == 'store':
                n0 = len(R.conflicts)
                R.rt(ev.new)
                R.rt(ev.value)
                chk.ok('align', f'{e.short}:{ev.where[2]}:{show(ev.data["path"][-1], 40) if ev.data["path"] else ""}')
                for c, a, b in R.conflicts[n0:]:
                    chk.bad('align', f'{ev.where[2]}', f'one entry per {rowname(b)} where one per {rowname(a)} is needed: '
                            f'{show(c, 200)}', ev.where)
            elif ev.kind in ('colset', 'addcol'):
                R.rt(ev.value)
            elif ev.kind == 'opaque':
                cal = ev.callee
                nm = cal.args[1] if getattr(cal, 'op', '') == 'attr' else ''
                if nm == 'process_photons' and ev.tabs:
                    key = f'{e.short}:{show(cal, 60)}'
                    chk.ok('delegate', key)
                    want = [None, HIT, mk('sym', 'interpos'), mk('sym', 'coos')]
                    got = list(ev.targs)
                    names = ['photons', 'intersect', 'interpos', 'intercoos']
                    kw = dict(ev.tkw)
                    got += [kw.get(x) for x in names[len(got):]]
                    for a, b, q in zip(want[1:], got[1:], names[1:]):
                        if b is None or b is not a:
                            if b is not None and b.op == 'star':
                                continue
                            chk.bad('delegate', key, f'{q} handed on as {show(b, 80) if b is not None else "nothing"}',
                                    ev.where)
    chk.count('functions_inlined', len(M.functions))


def rowname(r):
    return 'photon' if r == 'F' else f'photon in {show(r[1], 60)}'


def missed(v):
    """content for photons that miss, where the selection is visible"""
    while v.op in ('where', 'phi') and len(v.args) == 3:
        c = v.args[0]
        while c.op == 'idx' and c.args[1].op in ('tuple', 'const', 'slice'):
            c = c.args[0]           # mask[:, None]
        if c is HIT:
            v = v.args[2]
        elif c.op == 'not' and c.args[0] is HIT:
            v = v.args[1]
        else:
            break
    return v


def default_fill(v, n):
    """phi(hascol, old, default) forms"""
    return v.op == 'full' or is_const(v)


def locate(s, n, w):
    for ev in reversed(s.events):
        if ev.kind == 'store' and ev.value is w.value:
            return ev.where
    for ev in reversed(s.events):
        if ev.kind == 'store' and contains(ev.new, lambda x: x is w.value):
            return ev.where
    return None


def loopcheck(chk, key, w, where):
    i = w.path[0]
    if i.op == 'idx' and i.args[0].op == 'nonzero' and i.args[1].op == 'it':
        mask, it = i.args[0].args[0], i.args[1]
        chk.ok('loop', key)
        for x in subterms(w.value):
            if x.op == 'idx' and x.args[1] is it:
                b = x.args[0]
                if b.op == 'idx' and b.args[1] is mask:
                    continue
                if b.op in ('col', 'mu') and b.op == 'col' or b.op == 'mu' and 'col0' in str(b.args[1:]):
                    chk.bad('loop', key, f'value for photon {show(i, 60)} is computed from photon {show(x, 60)}', where)
