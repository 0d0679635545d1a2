"""The final terms of the position, element id and local coordinate columns of every element
are compared with what the interaction produced: intersection point, id number and the two
intersection coordinates, each restricted to the rows that hit; and every use of the
intersection routine is checked for which photon properties it is given."""
from ..speccheck import run_specs
from ..model import Model
from ..flow import writes, implies_hit
from ..term import show, contains, const, is_const, cval, idx, mk, subterms, TRUE, FALSE, is_num
from ..elements import HIT, IPOS, COOS

OWN_POS = 'marxs.optics.aperture.BaseAperture'
# elements that by design do not record the interaction (documented: a rod only absorbs; a
# baffle moves the photons but has neither an id nor local coordinates of its own)
NO_RECORD = {'marxs.missions.arcus.boom.Rod': ('pos', 'id', 'coords'),
             'marxs.optics.baffles.Baffle': ('id', 'coords')}


def cond_free(ws):
    return [w for w in ws]


def last_hit_write(t, name):
    """value written to the hit rows last (and its guards)"""
    ws = [w for w in writes(t, name) if w.kind == 'upd']
    return ws[-1] if ws else None


def vocabulary(v):
    """is v a simple function of the interaction results (so that a mismatch is definite)?"""
    return not contains(v, lambda x: x.op in ('loop', 'mu', 'map', 'after') or
                        x.op == 'call' and not isinstance(x.args[0], str))


SPECS = True


def run(prog, chk):
    run_specs(prog, chk, 'P03', floor=1)
    chk.rule('pos', 'photons that hit have their position set to the intersection point', floor=18)
    chk.rule('id', 'photons that hit get the id number of the element in its id column', floor=20)
    chk.rule('iddefault', 'a new id column starts as -1', floor=20)
    chk.rule('coords', 'local coordinate columns receive the first and second intersection coordinate', floor=18)
    chk.rule('coorddefault', 'new floating point columns start as NaN', floor=18)
    chk.rule('raytrace', 'intersections are computed from the direction and position of the photons, in this order',
             floor=3)
    chk.rule('results', 'mask, points and coordinates of the intersection are handed on in the right roles', floor=1)
    M = Model(prog)
    ap = prog.classes.get(OWN_POS)
    for e in M.entries(('hit',)):
        s = e.s
        if s.err:
            continue
        c = prog.classes[e.qual]
        where = M.where_of(e, 'process_photons')
        delegated = any(ev.kind == 'opaque' and getattr(ev.callee, 'op', '') == 'attr' and
                        ev.callee.args[1] == 'process_photons' and ev.tabs for ev in s.events)
        hasown = ap is not None and ap in prog.mro(c)
        skip = {x for k in prog.mro(c) for x in NO_RECORD.get(getattr(k, 'qual', ''), ())}
        # position
        if not hasown and 'pos' not in skip:
            chk.ok('pos', e.short)
            want = idx(IPOS, HIT)
            t = s.col('pos')
            if delegated:
                pass
            else:
                ws = [w for w in writes(t, 'pos') if w.kind == 'upd']
                if not ws:
                    if t.op == 'col' or contains(t, lambda x: x is mk('col', s.start, const('pos'))) and not \
                            contains(t, lambda x: x is IPOS):
                        chk.bad('pos', e.short, f'position is not set to the intersection point: {show(t, 120)}', where)
                    else:
                        chk.unsure('pos', e.short, show(t, 160))
                else:
                    w = ws[-1]
                    if w.path[0] is HIT and w.value is want:
                        pass
                    elif w.path[0] is HIT and w.value is IPOS:
                        chk.bad('pos', e.short, 'all intersection points stored for the photons that hit', where)
                    elif vocabulary(w.value) and implies_hit(w.path[0], HIT) is not None:
                        chk.bad('pos', e.short, f'position of {show(w.path[0], 80)} set to {show(w.value, 120)}', where)
                    else:
                        chk.unsure('pos', e.short, show(w.value, 160))
        # id
        idcol = id_name(prog, c)
        t = s.col(idcol)
        if 'id' in skip:
            continue
        stores = [ev for ev in s.events if ev.kind == 'store' and len(ev.path) == 1 and ev.path[0] is not None and
                  contains(ev.value, lambda x: x.op == 'attr' and x.args[1] == 'id_num')]
        chk.ok('id', e.short)
        want = mk('attr', mk('sym', 'self'), 'id_num')
        good = [ev for ev in stores if ev.path[0] is HIT and ev.value is want]
        if delegated:
            if not good:
                chk.bad('id', e.short, 'the id column of the compound element is not filled for photons that hit', where)
        else:
            ws = [w for w in writes(t, idcol) if w.kind == 'upd']
            if not ws:
                if not contains(t, lambda x: x is HIT):
                    chk.bad('id', e.short, f'id column is not set for photons that hit: {show(t, 100)}', where)
                else:
                    chk.unsure('id', e.short, show(t, 160))
            else:
                w = ws[-1]
                if w.path[0] is HIT and w.value is want:
                    pass
                elif w.value is want and implies_hit(w.path[0], HIT) is None:
                    chk.unsure('id', e.short, show(w.path[0], 100))
                else:
                    chk.bad('id', e.short, f'id of rows {show(w.path[0], 80)} set to {show(w.value, 80)}', where)
        # defaults of new columns
        for ev in s.events:
            if ev.kind == 'addcol' and is_const(ev.name):
                n = cval(ev.name)
                if n in (idcol,):
                    chk.ok('iddefault', e.short)
                    v = fillvalue(ev.value)
                    if v is not None and not is_const(v, -1):
                        chk.bad('iddefault', e.short, f'id column starts as {show(v, 40)}', ev.where)
                elif ev.where[2].endswith('add_output_cols') or True:
                    if n in ('facet',) or isinstance(n, str) and n.startswith('<id'):
                        continue
                    v = fillvalue(ev.value)
                    if v is None:
                        continue
                    chk.ok('coorddefault', f'{e.short}.{n}')
                    if is_num(v) or v.op == 'const':
                        chk.bad('coorddefault', f'{e.short}.{n}', f'column starts as {show(v, 40)} for photons that '
                                'never hit', ev.where)
        # local coordinates
        locs = loc_names(prog, c)
        if locs and not hasown:
            for k, n in enumerate(locs):
                key = f'{e.short}.{n}'
                want = idx(COOS, mk('tuple', HIT, const(k)))
                chk.ok('coords', key)
                st = [ev for ev in s.events if ev.kind == 'store' and ev.value is want and ev.path and ev.path[0] is HIT]
                t = s.col(n)
                if delegated:
                    continue
                ws = [w for w in writes(t, n) if w.kind == 'upd']
                if not ws:
                    if not contains(t, lambda x: x is COOS):
                        chk.bad('coords', key, f'local coordinate is not recorded: {show(t, 100)}', where)
                    else:
                        chk.unsure('coords', key, show(t, 120))
                    continue
                w = ws[-1]
                if w.path[0] is HIT and w.value is want:
                    continue
                if vocabulary(w.value) and contains(w.value, lambda x: x is COOS or x is IPOS):
                    chk.bad('coords', key, f'coordinate {k} of rows {show(w.path[0], 60)} set to {show(w.value, 100)}', where)
                else:
                    chk.unsure('coords', key, show(w.value, 120))
    # how intersections are computed and passed on
    P = mk('sym', 'photons')
    for e in M.entries(('call', 'hit', 'pp', 'other', 'func')):
        s = e.s
        for ev in s.events:
            if ev.kind != 'intersect':
                continue
            d, p = ev.dir, ev.pos
            dn, pn = colname_of(d), colname_of(p)
            if dn is None and pn is None:
                continue
            key = f'{e.short}:{ev.where[2]}'
            chk.ok('raytrace', key)
            if dn != 'dir' and dn is not None or pn != 'pos' and pn is not None:
                chk.bad('raytrace', key, f'intersect called with ({show(d, 60)}, {show(p, 60)})', ev.where)
    e = next((x for x in M.entries(('call',)) if x.qual == 'marxs.optics.base.OpticalElement'), None)
    if e is not None and not e.s.err:
        s = e.s
        t = s.col('pos')
        chk.ok('results', e.short)
        ws = [w for w in writes(t, 'pos') if w.kind == 'upd']
        where = M.where_of(e, '__call__')
        for w in ws[-1:]:
            m, v = w.path[0], w.value
            if m.op == 'hit' and v is idx(mk('interpos', m.args[0]), m):
                continue
            if vocabulary(v):
                chk.bad('results', e.short, f'rows {show(m, 80)} get position {show(v, 100)}', where)
        if not ws and any(ev.kind == 'opaque' and ev.tabs for ev in s.events):
            for ev in s.events:
                if ev.kind == 'opaque' and ev.tabs and len(ev.targs) == 4:
                    got = [a.op for a in ev.targs[1:]]
                    if got != ['hit', 'interpos', 'coos'] and set(got) == {'hit', 'interpos', 'coos'}:
                        chk.bad('results', e.short, f'intersection results handed on as {got}', ev.where)


def colname_of(t):
    while t.op in ('idx', 'attr', 'copyof'):
        t = t.args[0]
    if t.op == 'col' and is_const(t.args[1]):
        return cval(t.args[1])
    return None


def fillvalue(t):
    while t.op in ('phi',):
        t = t.args[2]
    if t.op == 'full':
        return t.args[1]
    if t.op == 'upd' and t.args[0].op == 'full':
        return None
    if is_const(t) or t.op in ('glob',) or t.op == 'call' and t.args[0] == 'numpy.nan':
        return t
    return None


def id_name(prog, c):
    import ast
    fa = prog.find_attr(c, 'id_col')
    if fa and isinstance(fa[1], ast.Constant) and isinstance(fa[1].value, str):
        return fa[1].value
    return '<id>'


def loc_names(prog, c):
    import ast
    fa = prog.find_attr(c, 'loc_coos_name')
    if fa and isinstance(fa[1], (ast.List, ast.Tuple)):
        try:
            return list(ast.literal_eval(fa[1]))
        except ValueError:
            return ['<loc0>', '<loc1>']
    if fa and isinstance(fa[1], ast.Constant) and fa[1].value is None:
        return None
    return ['<loc0>', '<loc1>']
