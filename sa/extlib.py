"""Models of the builtins, numpy, astropy and container methods used by the package."""
import builtins
from .term import *
from .term import call as tcall
from .program import ClassInfo
from . import interp as I

AXIS_POS = {'sum': ['axis'], 'mean': ['axis'], 'max': ['axis'], 'min': ['axis'], 'any': ['axis'], 'all': ['axis'],
            'argmax': ['axis'], 'argmin': ['axis'], 'argsort': ['axis'], 'cumsum': ['axis'], 'std': ['axis'],
            'prod': ['axis'], 'median': ['axis'], 'nansum': ['axis'], 'nanmean': ['axis'], 'var': ['axis'],
            'concatenate': ['axis'], 'stack': ['axis'], 'repeat': ['repeats', 'axis'], 'clip': ['a_min', 'a_max'],
            'percentile': ['q', 'axis'], 'interp': ['xp', 'fp'], 'digitize': ['bins'], 'searchsorted': ['v', 'side'],
            'linspace': ['stop', 'num'], 'tile': ['reps'], 'full': ['fill_value', 'dtype'], 'cumprod': ['axis'],
            'expand_dims': ['axis'], 'reshape': ['shape'], 'histogram': ['bins'], 'where': ['x', 'y']}
IDENT = {'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'require'}
ARITH = {'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub', 'divide': 'Div', 'power': 'Pow', 'matmul': 'MatMult',
         'logical_and': 'BitAnd', 'logical_or': 'BitOr', 'floor_divide': 'FloorDiv', 'mod': 'Mod',
         'float_power': 'Pow'}
CMP = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq'}


def row_dot_key(a, b):
    return tcall('numpy.sum', (mul(a, b),), (('axis', const(-1)),))


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs, out = spec, None
    parts = lhs.split(',')
    if len(parts) != 2 or len(ops) != 2:
        return None
    a, b = parts
    ell = '...' in lhs
    a2, b2 = a.replace('...', ''), b.replace('...', '')
    if out is None:
        allc = a2 + b2
        out2 = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    else:
        out2 = out.replace('...', '')
    A, B = ops
    # drop explicit batch index: in both/one and in output, first position of output
    if len(a2) == 1 and len(b2) == 2 or (len(a2) == 2 and len(b2) == 2 and '...' not in lhs and
                                         out2 and out2[0] == a2[0] and a2[1] in b2):
        # maybe vector first: v_k(j) M_ij
        vec, m, vt, mt = A, B, a2, b2
        k = vt[-1]
        if k in mt and len(mt) == 2:
            o = mt[1] if mt[0] == k else mt[0]
            if out2 in (o, vt[:-1] + o):
                return dot(vec, m) if mt[0] == k else dot(vec, transpose(m))
    if len(a2) == 2 and len(b2) in (1, 2):
        m, vec, mt, vt = A, B, a2, b2
        k = vt[-1]
        if k in mt:
            o = mt[0] if mt[1] == k else mt[1]
            if out2 in (o, vt[:-1] + o):
                return dot(vec, transpose(m)) if mt[1] == k else dot(vec, m)
            if len(vt) == 2 and out2 == o + vt[0]:
                return dot(m, transpose(vec)) if mt[1] == k else dot(transpose(m), transpose(vec))
        if len(vt) == 2 and mt[1] == vt[0] and out2 == mt[0] + vt[1]:
            return dot(m, vec)
    if a2 == b2 and len(a2) == 1 and out2 == '':
        return row_dot_key(A, B)
    if a2 == b2 and len(a2) == 2 and out2 == a2[0]:
        return row_dot_key(A, B)
    return None


def npcall(ip, name, args, kw, node):
    name = I.NPALIAS.get(name, name)
    if name.startswith('random.'):
        return rand(ip, 'numpy.' + name, args, kw, node)
    dt = kw.get('dtype', args[1] if len(args) > 1 and name in ('asarray', 'array', 'asanyarray', 'ascontiguousarray') else None)
    if dt is not None and name in ('asarray', 'array', 'asanyarray', 'ascontiguousarray', 'asfarray') and args and narrow(ip.tm(dt)):
        return tcall('numpy.astype', (ip.tm(args[0]), narrow(ip.tm(dt))))
    if name in IDENT and args:
        a = args[0]
        if isinstance(a, I.Ref):
            return a
        if isinstance(a, I.PhiV) and all(isinstance(x, (I.Ref, T)) for x in (a.a, a.b)):
            return a
        return ip.tm(a)
    if name in ('array', 'copy', 'asfarray') and args:
        c = kw.get('copy')
        if c is not None and is_const(ip.tm(c), False) and isinstance(args[0], I.Ref):
            return args[0]
        return arr(ip.tm(args[0]))
    if name in ('shuffle',):
        return rand(ip, 'numpy.random.shuffle', args, kw, node)
    if name in ('copyto', 'putmask', 'place', 'put') and args:
        tgt = args[0]
        v = ip.tm(args[-1])
        if name == 'copyto':
            w = kw.get('where')
            i = ip.tm(w) if w is not None else None
        else:
            i = ip.tm(args[1])
        if isinstance(tgt, I.Ref):
            if i is not None:
                if v.op not in ('const',) and name in ('copyto', 'putmask'):
                    v = idx(v, i)
                ip.put(tgt, i, v, node)
            else:
                ip.put(tgt, None, v, node)
        return NONE
    if name in ('fill_diagonal',):
        if isinstance(args[0], I.Ref):
            ip.put(args[0], None, mk('filldiag', ip.tm(args[0]), ip.tm(args[1])), node)
        return NONE
    if name in ('multiply.at', 'add.at', 'subtract.at', 'divide.at'):
        op = {'m': 'Mult', 'a': 'Add', 's': 'Sub', 'd': 'Div'}[name[0]]
        i = ip.tm(args[1])
        if isinstance(args[0], I.Ref):
            cur = idx(ip.tm(args[0]), i)
            ip.put(args[0], i, ip.arith(op, cur, ip.tm(args[2])), node, aug=op)
        return NONE
    out = kw.get('out')
    if out is not None:
        kw = {k: v for k, v in kw.items() if k != 'out'}
    elif name in ('multiply', 'add', 'subtract', 'divide') and len(args) == 3:
        out = args[2]
        args = args[:2]
    where = None
    if out is not None and 'where' in kw:
        where = ip.tm(kw['where'])
        kw = {k: v for k, v in kw.items() if k != 'where'}
    r = np_pure(ip, name, args, kw, node)
    if out is not None:
        if isinstance(out, I.Tup):
            out = out.items[0]
        if isinstance(out, I.Ref):
            op = ARITH.get(name) if args and isinstance(args[0], I.Ref) and args[0] == out else None
            if where is not None:
                ip.put(out, where, idx(r, where), node, aug=op)
            else:
                ip.put(out, None, ip.tm(r), node, aug=op)
            return out
    return r


def rows_distribute(t, i):
    return t


def np_pure(ip, name, args, kw, node):
    t = [ip.tm(a) for a in args]
    k = {a: ip.tm(b) for a, b in kw.items() if isinstance(a, str)}
    if name in ('dot', 'inner') and len(t) == 2 and name == 'dot':
        return dot(t[0], t[1])
    if name in ARITH and len(t) == 2:
        return ip.arith(ARITH[name], t[0], t[1])
    if name in ('logical_not',) and t:
        return not_(t[0])
    if name == 'negative':
        return neg(t[0])
    if name in CMP:
        return cmp_(CMP[name], t[0], t[1])
    if name == 'square':
        return powr(t[0], 2)
    if name == 'sqrt':
        return powr(t[0], 0.5)
    if name == 'reciprocal':
        return powr(t[0], -1)
    if name == 'einsum' and t and is_const(t[0]):
        r = einsum(cval(t[0]), t[1:])
        if r is not None:
            return r
    if name == 'linalg.inv':
        return inv(t[0])
    if name == 'linalg.multi_dot':
        if t[0].op == 'list':
            return dot(*t[0].args)
    if name == 'transpose' and len(t) == 1 and not k:
        return transpose(t[0])
    if name in ('eye', 'identity'):
        return tcall('numpy.eye', t[:1])
    if name in ('ones', 'zeros', 'full', 'empty', 'ones_like', 'zeros_like', 'full_like', 'empty_like'):
        like = name.endswith('_like')
        b = name.replace('_like', '')
        shape = t[0] if t else k.get('shape', NONE)
        if b == 'full':
            val = t[1] if len(t) > 1 else k.get('fill_value', NONE)
        else:
            val = {'ones': const(1), 'zeros': const(0), 'empty': mk('glob', 'empty')}[b]
        dt = k.get('dtype')
        if dt is None and b != 'full' and len(t) > 1:
            dt = t[1]
        if dt is not None and dt.op == 'glob' and dt.args[0] in ('builtins.bool', 'numpy.bool_', 'numpy.bool') \
                and is_const(val):
            val = const(bool(cval(val)))
        if like and dt is None and shape.op in ('sym', 'attr') and shape.args[-1] in ('orders', 'labels'):
            # documented to be integers: numbers that are assigned later are cut off
            return mk('full', mk('shapeof', shape), mk('cutoff', val))
        if dt is not None and dt.op == 'glob' and dt.args[0].startswith(('builtins.int', 'numpy.int', 'numpy.uint')):
            return mk('full', mk('shapeof', shape) if like else shape, mk('int', val))
        if dt is not None and narrow(dt) and 'int' not in str(narrow(dt).args[0]):
            val = mk('cutoff', val, narrow(dt))
        if dt is not None and dt.op not in ('glob', 'const', 'attr', 'sym', 'kw', 'none') and not is_const(dt):
            # a number type that is selected
            val = mk('cutoff', val, dt)
        return mk('full', mk('shapeof', shape) if like else shape, val)
    if name == 'where' and len(t) == 3:
        return mk('where', *t)
    if name in ('nonzero', 'where', 'flatnonzero') and len(t) == 1:
        r = mk('nonzero', t[0])
        return r if name == 'flatnonzero' else mk('tuple', r)
    if name == 'arange':
        if len(t) == 1:
            return mk('range', t[0])
        return mk('range', *t)
    if name in ('minimum', 'maximum') and len(t) == 2:
        a, b = sorted(t, key=sortkey)
        o = 'maximum' if name == 'minimum' else 'minimum'
        for x, y in ((a, b), (b, a)):
            if y.op == 'call' and y.args[0] == 'numpy.' + o and is_num(x):
                for p, q in (y.args[1], y.args[1][::-1]):
                    if is_num(p):
                        lo, hi = (p, x) if name == 'minimum' else (x, p)
                        return tcall('numpy.clip', (q, lo, hi))
        return tcall('numpy.' + name, (a, b))
    if name == 'clip':
        lo = t[1] if len(t) > 1 else k.get('a_min', k.get('min', NONE))
        hi = t[2] if len(t) > 2 else k.get('a_max', k.get('max', NONE))
        return tcall('numpy.clip', (t[0], lo, hi))
    if name in ('deg2rad', 'radians'):
        return mul(t[0], tcall('numpy.deg2rad', (const(1),)))
    if name in ('rad2deg', 'degrees'):
        return div(t[0], tcall('numpy.deg2rad', (const(1),)))
    if name == 'ndim' and t and not is_const(t[0]) and t[0].op not in ('list', 'tuple', 'full'):
        return mk('len', mk('attr', t[0], 'shape'))
    if name in ('isscalar', 'ndim') and t:
        if is_const(t[0]):
            return const(True) if name == 'isscalar' else const(0)
        if t[0].op in ('list', 'tuple', 'full') and name == 'isscalar':
            return FALSE
    pos = AXIS_POS.get(name)
    kws = dict(k)
    if pos:
        base, rest = t[:1], t[1:]
        for p, v in zip(pos, rest):
            kws[p] = v
        t = base + rest[len(pos):]
    for a in [a for a in kws if kws[a] is NONE and a in ('axis', 'dtype')]:
        del kws[a]
    if name == 'vectorize' and t:
        return mk('vectorized', t[0])
    if 'axis' in kws and is_const(kws['axis'], 1) and name in ('sum', 'mean', 'max', 'min', 'any', 'all'):
        kws['axis'] = const(-1)
    if name == 'linalg.norm' and 'axis' in kws and is_const(kws['axis'], 1):
        kws['axis'] = const(-1)
    return tcall('numpy.' + name, t, tuple(sorted(kws.items())))


NARROW = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'intc', 'uintc', 'intp', 'int_', 'float16', 'float32',
          'half', 'single', 'i', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'int', 'bool'}


def narrow(dt):
    """the type, if numbers assigned to an array of that type are cut off or lose digits"""
    if dt.op == 'glob' and (dt.args[0] == 'builtins.int' or dt.args[0].startswith('numpy.') and dt.args[0][6:] in NARROW):
        return dt if 'float' in dt.args[0] or dt.args[0][6:] in ('half', 'single') else mk('glob', 'builtins.int')
    if is_const(dt) and isinstance(cval(dt), str) and cval(dt).lstrip('<>=|') in NARROW:
        c = cval(dt).lstrip('<>=|')
        return mk('glob', 'builtins.int') if c[0] in 'iu' else mk('glob', 'numpy.float32') if c in ('f4', 'single') else dt
    return None


def rand(ip, name, args, kw, node):
    targs = tuple(ip.tm(a) for a in args)
    tk = ip.kwterms(kw)
    ip.event('random', node, name=name, targs=targs, tkw=tk)
    if name.endswith('.shuffle') and args and isinstance(args[0], I.Ref):
        ip.put(args[0], None, mk('shuffled', ip.tm(args[0])), node)
        return NONE
    n = ip.fresh()
    base = name.split('.')[-1]
    kws = dict(tk)
    if name.startswith('numpy.random.') and '**' not in kws and not any(t.op == 'star' for t in targs):
        if base in ('rand', 'randn') and not kws:
            kws = {'size': mk('tuple', *targs)} if targs else {}
            base, targs = {'rand': 'uniform', 'randn': 'normal'}[base], ()
        base = {'random': 'uniform', 'random_sample': 'uniform', 'sample': 'uniform', 'ranf': 'uniform',
                'standard_normal': 'normal'}.get(base, base)
        sig = ('size',) if base != name.split('.')[-1] else RSIG.get(base)
        if sig and len(targs) <= len(sig):
            kws.update(zip(sig, targs))
            targs = ()
            for k, v in RDEF.get(base, {}).items():
                if k in kws and (is_const(kws[k]) and cval(kws[k]) == v and cval(kws[k]) is not False):
                    del kws[k]
            sz = kws.get('size')
            if sz is NONE or sz is not None and sz.op == 'tuple' and not sz.args:
                del kws['size']
            elif sz is not None and sz.op in ('tuple', 'list') and len(sz.args) == 1:
                kws['size'] = sz.args[0]
            name, tk = 'numpy.random.' + base, tuple(sorted(kws.items()))
    # a draw in a loop is a new one each time
    return mk('rand', const(n), name, targs, tk, *[mk('it', const(d)) for d in range(ip.depth_it)])


RSIG = {'normal': ('loc', 'scale', 'size'), 'uniform': ('low', 'high', 'size'), 'choice': ('a', 'size', 'replace', 'p'),
        'poisson': ('lam', 'size'), 'exponential': ('scale', 'size'), 'randint': ('low', 'high', 'size', 'dtype'),
        'lognormal': ('mean', 'sigma', 'size'), 'vonmises': ('mu', 'kappa', 'size'), 'binomial': ('n', 'p', 'size'),
        'power': ('a', 'size'), 'rayleigh': ('scale', 'size')}
RDEF = {'normal': {'loc': 0, 'scale': 1}, 'uniform': {'low': 0, 'high': 1}, 'choice': {'replace': True, 'p': None},
        'poisson': {'lam': 1}, 'exponential': {'scale': 1}, 'lognormal': {'mean': 0, 'sigma': 1}, 'rayleigh': {'scale': 1}}


def typename(v):
    if isinstance(v, I.ClsV):
        return v.ci
    if isinstance(v, I.ExtV):
        return v.dotted
    return None


def is_instance(ip, o, clsv, node):
    if isinstance(clsv, (I.Tup, I.Lst)):
        return or_(*[is_instance(ip, o, c, node) for c in ip.items_of(clsv)])
    if isinstance(o, I.PhiV):
        return phi(o.c, is_instance(ip, o.a, clsv, node), is_instance(ip, o.b, clsv, node))
    c = typename(clsv)
    if isinstance(o, I.Obj) and c is not None:
        if isinstance(c, ClassInfo):
            return const(ip.prog.is_sub(o.cls, c))
        eb = ip.prog.ext_bases(o.cls)
        if any(isinstance(b, str) and b.split('.')[-1] == c.split('.')[-1] for b in eb):
            return TRUE
        if all(b in ('object', 'builtins.object') for b in eb):
            return FALSE
        return mk('isinstance', o.term, c)
    if isinstance(o, (I.ClsV, I.Func)) and isinstance(c, ClassInfo):
        return FALSE
    if isinstance(o, I.Tab) and isinstance(c, str):
        last = c.split('.')[-1]
        if last in ('Table', 'QTable'):
            return TRUE
        if last in ('Row', 'dict', 'list', 'tuple', 'ndarray', 'str'):
            return FALSE
    if isinstance(c, str):
        last = c.split('.')[-1]
        kind = {I.Lst: 'list', I.Tup: 'tuple', I.Dct: 'dict'}.get(type(o))
        if kind:
            if last == kind:
                return TRUE
            if last in ('list', 'tuple', 'dict', 'str', 'int', 'float', 'ndarray', 'Quantity', 'Row', 'Table'):
                return FALSE
        if isinstance(o, T) and is_const(o):
            return const(type(cval(o)).__name__ == last or (last == 'Number' and is_num(o)))
    cn = c.qual if isinstance(c, ClassInfo) else c
    if cn is None:
        return mk('isinstance', ip.tm(o), ip.tm(clsv))
    t = ip.tm(o)

    def one(x):
        if x.op == 'phi':
            return phi(x.args[0], one(x.args[1]), one(x.args[2]))
        if is_const(x) and not isinstance(c, ClassInfo):
            return const(type(cval(x)).__name__ == cn.split('.')[-1])
        if is_const(x):
            return FALSE
        return mk('isinstance', x, cn)
    return one(t)


def shallow_copy(ip, v, deep):
    if isinstance(v, I.Dct):
        s = ip.st.heap[('d', v.oid)]
        items = [(k, shallow_copy(ip, x, True) if deep else x) for k, x in s.items]
        return ip.newdict(items, s.open)
    if isinstance(v, I.Lst):
        its = ip.items_of(v)
        if its is None:
            return ip.newlist(ip.tm(v))
        return ip.newlist([shallow_copy(ip, x, True) if deep else x for x in its])
    if isinstance(v, I.Tab):
        return copy_tab(ip, v)
    if isinstance(v, I.Obj):
        o = I.Obj(('o', ip.fresh()), v.cls, mk('copyof', v.term), v.known)
        for k, x in list(ip.st.heap.items()):
            if k[0] == 'a' and k[1] == v.oid:
                ip.st.heap[('a', o.oid, k[2])] = shallow_copy(ip, x, True) if deep and not isinstance(x, I.Obj) else x
        return o
    if isinstance(v, I.Ref):
        return ip.newcell(ip.tm(v), {'copy': v.loc, 'shallow': not deep})
    if isinstance(v, I.PhiV):
        return I.PhiV(v.c, shallow_copy(ip, v.a, deep), shallow_copy(ip, v.b, deep))
    return v


def kept(ip, v):
    """'shared': the object that was passed in or a column of the photon list, 'own': a copy of something"""
    if isinstance(v, I.PhiV):
        k = {kept(ip, v.a), kept(ip, v.b)}
        return k.pop() if len(k) == 1 else 'shared' if 'shared' in k else None
    if isinstance(v, I.Ref):
        if v.loc[0] in ('init', 'col0'):
            return 'shared'
        info = ip.cellinfo.get(v.loc)
        if isinstance(info, dict) and 'copy' in info:
            return 'shallow' if info.get('shallow') else 'own'
    if isinstance(v, T) and (v.op == 'kw' or v.op == 'phi' and any(x.op == 'kw' for x in v.args[1:])):
        return 'shared'
    if isinstance(v, I.Tab):
        return 'own' if v.origin == 'copy' else 'shared' if v.sel is None and v.tid and str(v.origin) == 'None' else None
    return None


def copy_tab(ip, v):
    root, sels = v, []
    t = ip.newtab(mk('copy', ip.tm(v)), known=v.known, origin='copy')
    base = v
    while base.sel is not None:
        base = base.parent
    for k in list(ip.st.heap):
        if k[0] == 'colref' and k[1] == base.tid:
            ip.st.heap[('colref', t.tid, k[2])] = ip.newcell(ip.tm(ip.getcol(v, k[2])))
        if k[0] == 'colpres' and k[1] == base.tid:
            ip.st.heap[('colpres', t.tid, k[2])] = ip.st.heap[k]
    ip.st.heap[('rows', t.tid)] = ip.tabrows(v)
    ip.st.heap[('tver', t.tid)] = ip.tver(v) if v.sel is None else mk('sub', ip.tver(base), v.sel)
    ip.event('tabcopy', None, src=v, dst=t)
    return t


def arr(t):
    """the array made from a (nested) sequence"""
    if t.op == 'tuple':
        return mk('list', *[arr(x) for x in t.args])
    if t.op == 'list' and any(x.op == 'tuple' for x in t.args):
        return mk('list', *[arr(x) for x in t.args])
    return t


def make_table(ip, args, kw, node, qt=False):
    if args and isinstance(args[0], I.Tab):
        c = kw.get('copy')
        if c is not None and is_const(ip.tm(c), False):
            return args[0]
        return copy_tab(ip, args[0])
    if args and isinstance(args[0], I.RowV):
        return copy_tab(ip, I.Tab(('s', ip.fresh()), sel=args[0].i, parent=args[0].tab))
    ip.ntabs += 1
    t = ip.newtab(mk('newtable', const(ip.ntabs)), origin=f'new{ip.ntabs}')
    ip.event('newtab', node, tab=t, targs=tuple(ip.tm(a) for a in args), tkw=ip.kwterms(kw), args=args, kw=kw)
    names = kw.get('names')
    data = args[0] if args else kw.get('data')
    cols = []
    if isinstance(data, I.Dct):
        s = ip.st.heap[('d', data.oid)]
        cols = list(s.items)
        if s.open is None:
            ip.st.heap[('closed', t.tid)] = TRUE
    elif data is not None and names is not None and ip.items_of(data) is not None and ip.items_of(names) is not None:
        cols = [(ip.tm(n), v) for n, v in zip(ip.items_of(names), ip.items_of(data))]
        ip.st.heap[('closed', t.tid)] = TRUE
    elif data is not None and ip.items_of(data) is not None:
        for v in ip.items_of(data):
            if isinstance(v, I.Ref) and ip.cellinfo.get(v.loc, {}).get('name'):
                cols.append((ip.cellinfo[v.loc]['name'], v))
    elif data is None and not kw:
        ip.st.heap[('closed', t.tid)] = TRUE
    units = kw.get('units')
    for n, v in cols:
        c = ip.st.heap[('colref', t.tid, n)] = ip.newcell(ip.tm(v))
        ip.st.heap[('colpres', t.tid, n)] = TRUE
        if isinstance(v, I.Ref) and ('unit', v.loc) in ip.st.heap:
            ip.st.heap[('unit', c.loc)] = ip.st.heap[('unit', v.loc)]
        if isinstance(units, I.Dct):
            x = ip.st.heap[('d', units.oid)].get(n)
            if x is not None:
                ip.st.heap[('unit', c.loc)] = ip.tm(x)
    raw = data is not None and not cols or units is not None and not isinstance(units, I.Dct)
    if raw:
        ip.rawtabs.add(t.tid)
    ip.localtabs[t.tid] = mk('tabdata', *[ip.tm(a) for a in args], *[mk('tuple', const(n), x) for n, x in ip.kwterms(kw)]) \
        if raw else mk('tabdata')
    m = kw.get('meta')
    if isinstance(m, I.Dct):
        ip.st.heap[('tmeta', t.tid)] = m
    elif m is not None and m is not NONE:
        ip.st.heap[('metabase', t.tid)] = ip.tm(m)
    return t


def make_column(ip, args, kw, node):
    k = {a: ip.tm(b) for a, b in kw.items() if isinstance(a, str)}
    if '**' in k:
        # Column(length=.., **n)
        pass
    data = ip.tm(args[0]) if args else k.get('data')
    name = k.get('name')
    if len(args) > 1:
        name = ip.tm(args[1])
    if data is None:
        data = mk('full', k.get('length', NONE), const(0))
    r = ip.newcell(data, {'name': name, 'kw': tuple(sorted(k.items()))})
    if 'unit' in k:
        ip.st.heap[('unit', r.loc)] = k['unit']
    ip.event('column', node, name=name, kw=k, ref=r)
    return r


def call_ext(ip, d, args, kw, node):
    if d.startswith('math.') and d[5:] in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'log10', 'radians', 'degrees', 'floor',
                                           'ceil', 'hypot', 'sinh', 'cosh', 'tanh', 'isnan', 'isfinite', 'isinf'):
        d = 'numpy.' + d[5:]
    if d.startswith('numpy.'):
        return npcall(ip, d[6:], args, kw, node)
    if d.startswith('builtins.'):
        return call_builtin(ip, d[9:], args, kw, node)
    last = d.split('.')[-1]
    if d.startswith('random.'):
        return rand(ip, d, args, kw, node)
    if last in ('Table', 'QTable') and d.startswith('astropy'):
        return make_table(ip, args, kw, node)
    if last in ('Column', 'MaskedColumn') and d.startswith('astropy'):
        return make_column(ip, args, kw, node)
    if last == 'Quantity' and d.startswith('astropy'):
        if len(args) + len(kw) == 1 and args:
            return ip.tm(args[0])
    if d in ('copy.deepcopy', 'copy.copy'):
        return shallow_copy(ip, args[0], d.endswith('deepcopy'))
    if d == 'functools.partial':
        return I.Partial(args[0], args[1:], kw)
    if d == 'functools.reduce' and len(args) >= 2:
        its = ip.items_of(args[1])
        if its is not None:
            its = ([args[2]] if len(args) > 2 else []) + its
            if its:
                acc = its[0]
                for x in its[1:]:
                    acc = ip.do_call(args[0], [acc, x], {}, node)
                return acc
        return None
    if d == 'functools.wraps' or d == 'functools.update_wrapper':
        return I.Func(__import__('ast').parse('lambda f: f', mode='eval').body, ip.fr.func.mod, None, None)
    if d in ('collections.OrderedDict',):
        return call_builtin(ip, 'dict', args, kw, node)
    if d == 'warnings.warn':
        ip.event('warn', node, targs=tuple(ip.tm(a) for a in args))
        return NONE
    if d == 'itertools.product' or d == 'itertools.chain':
        return None
    if d.startswith('operator.') and len(args) == 2 and last in ('mul', 'add', 'sub', 'truediv', 'matmul'):
        return ip.binop({'mul': 'Mult', 'add': 'Add', 'sub': 'Sub', 'truediv': 'Div', 'matmul': 'MatMult'}[last], *args)
    if d.startswith('scipy.stats') and last == 'rvs':
        return rand(ip, d, args, kw, node)
    if d.startswith('math.'):
        return npcall(ip, last, args, kw, node)
    return None


def call_builtin(ip, f, args, kw, node):
    tm = ip.tm
    if f == 'len' and args:
        a = args[0]
        if isinstance(a, I.Tab):
            return mk('len', ip.tabrows(a))
        if isinstance(a, I.PhiV):
            return ip.branch(a.c, lambda: call_builtin(ip, f, [a.a], kw, node),
                             lambda: call_builtin(ip, f, [a.b], kw, node))
        its = ip.items_of(a)
        if its is not None:
            return const(len(its))
        if isinstance(a, I.Dct):
            c = ip.dict_truth(a)
            return mk('nsize', c, tm(a))
        return ip.len_of(tm(a))
    if f == 'range':
        return mk('range', *[tm(a) for a in args]) if not all(is_const(tm(a), 0) for a in args[:1]) or len(args) != 2 \
            else mk('range', tm(args[1]))
    if f == 'enumerate':
        st = kw.get('start', args[1] if len(args) > 1 else const(0))
        return I.IterV('enumerate', [args[0]], tm(st))
    if f == 'zip':
        return I.IterV('zip', list(args))
    if f == 'reversed':
        return I.IterV('reversed', [args[0]])
    if f in ('list', 'tuple'):
        if not args:
            return ip.newlist(()) if f == 'list' else I.Tup(())
        alt = ip.alternatives(args[0])
        if alt:
            return ip.branch(alt[0], lambda: call_builtin(ip, f, [alt[1]], kw, node),
                             lambda: call_builtin(ip, f, [alt[2]], kw, node))
        k, mkf, dom = ip.iter_spec(args[0])
        if k is not None:
            return ip.newlist(k) if f == 'list' else I.Tup(k)
        t = tm(args[0])
        if isinstance(args[0], (I.IterV,)):
            it = mk('it', const(ip.depth_it))
            t = mk('map', tm(mkf(it)), dom)
        return ip.newlist(t) if f == 'list' else t
    if f == 'dict':
        d = I.DState(())
        if args:
            a = args[0]
            if isinstance(a, I.Dct):
                d = ip.st.heap[('d', a.oid)]
            else:
                its = ip.items_of(a) if not isinstance(a, I.IterV) else ip.iter_spec(a)[0]
                prs = [ip.items_of(x) for x in its] if its is not None else None
                if prs is not None and all(p is not None and len(p) == 2 for p in prs):
                    for p in prs:
                        d = d.set(tm(p[0]), p[1])
                else:
                    d = I.DState((), mk('dictfrom', tm(a)))
        for k, v in kw.items():
            if k == '**':
                d = I.DState(d.items, v)
            else:
                d = d.set(const(k), ip.bind(v))
        return ip.newdict(d.items, d.open)
    if f in ('set', 'frozenset'):
        return mk('setof', tm(args[0])) if args else mk('set')
    if f == 'isinstance' and len(args) == 2:
        return is_instance(ip, args[0], args[1], node)
    if f == 'issubclass':
        a, b = typename(args[0]), typename(args[1])
        if isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
            return const(ip.prog.is_sub(a, b))
        return mk('issubclass', tm(args[0]), tm(args[1]))
    if f == 'hasattr' and len(args) == 2:
        o, n = args[0], tm(args[1])
        if isinstance(o, I.Obj) and is_const(n):
            nm = cval(n)
            v = ip.st.heap.get(('a', o.oid, nm))
            if v is not None and not (isinstance(v, T) and v.op == 'missing'):
                return TRUE
            if ip.prog.find_method(o.cls, nm):
                return TRUE
            if nm in ip.prog.instance_assigned(o.cls) and not o.known:
                return mk('hasattr', o.term, n)
            if ip.prog.ext_bases(o.cls) and not all(b in ('object',) for b in ip.prog.ext_bases(o.cls)):
                return mk('hasattr', o.term, n)
            if '__getattr__' in [m for k in ip.prog.mro(o.cls) for m in k.methods]:
                return mk('hasattr', o.term, n)
            return FALSE
        return mk('hasattr', tm(o), n)
    if f == 'getattr':
        n = tm(args[1])
        if is_const(n):
            if len(args) == 2:
                return ip.getattr(args[0], cval(n), node)
            c = call_builtin(ip, 'hasattr', args[:2], {}, node)
            return ip.branch(c, lambda: ip.getattr(args[0], cval(n), node), lambda: args[2])
        return mk('getattr', tm(args[0]), n)
    if f == 'setattr':
        n = tm(args[1])
        if is_const(n):
            ip.setattr(args[0], cval(n), args[2], node)
        else:
            ip.event('setattrdyn', node, obj=args[0], name=n, value=tm(args[2]))
        return NONE
    if f == 'callable':
        if isinstance(args[0], (I.Func, I.Bound, I.ClsV, I.Partial)):
            return TRUE
        if isinstance(args[0], I.Obj):
            return const(ip.prog.find_method(args[0].cls, '__call__') is not None)
        return mk('callable', tm(args[0]))
    if f == 'type' and len(args) == 1:
        if isinstance(args[0], I.Obj) and not (ip.openself and args[0].oid == 'self' and len(ip.prog.subclasses(args[0].cls)) > 1):
            return I.ClsV(args[0].cls)
        return mk('type', tm(args[0]))
    if f in ('abs', 'min', 'max', 'sum', 'round', 'any', 'all', 'pow', 'sorted'):
        if f == 'sorted':
            return mk('sorted', tm(args[0]), *[v for _, v in ip.kwterms(kw)])
        if f in ('min', 'max') and len(args) == 2:
            return npcall(ip, 'minimum' if f == 'min' else 'maximum', args, {}, node)
        if f in ('any', 'all') and args:
            its = ip.items_of(args[0])
            if its is not None:
                cs = [ip.truthy(x) for x in its]
                return or_(*cs) if f == 'any' else and_(*cs)
        if f == 'sum' and len(args) >= 1:
            its = ip.items_of(args[0])
            if its is not None:
                acc = tm(args[1]) if len(args) > 1 else const(0)
                for x in its:
                    acc = ip.binop('Add', acc, x)
                return acc
        if f == 'abs' and is_num(tm(args[0])):
            return const(abs(cval(tm(args[0]))))
        return npcall(ip, f, args, kw, node)
    if f in ('float', 'int', 'str', 'bool') and args:
        t = tm(args[0])
        if is_const(t):
            try:
                return const(getattr(builtins, f)(cval(t)))
            except Exception:
                pass
        if f == 'bool':
            return ip.truthy(args[0])
        return tcall('builtins.' + f, (t,))
    if f == 'str' and not args:
        return const('')
    if f == 'print':
        return NONE
    if f == 'map' and len(args) == 2:
        k, mkf, dom = ip.iter_spec(args[1])
        if k is not None:
            return ip.newlist([ip.bind(ip.do_call(args[0], [x], {}, node)) for x in k])
        it = mk('it', const(ip.depth_it))
        ip.depth_it += 1
        try:
            r = tm(ip.do_call(args[0], [mkf(it)], {}, node))
        finally:
            ip.depth_it -= 1
        return mk('map', r, dom)
    if f == 'slice':
        a = [tm(x) for x in args]
        if len(a) == 1:
            a = [NONE] + a
        while len(a) < 3:
            a.append(NONE)
        return mk('slice', *a)
    if f == 'super' and len(args) == 2 and isinstance(args[0], I.ClsV):
        return I.Super(args[0].ci, args[1])
    if f == 'next' and args:
        return mk('next', tm(args[0]), *[tm(a) for a in args[1:]])
    if f == 'id' or f == 'repr' or f == 'hash':
        return tcall('builtins.' + f, tuple(tm(a) for a in args))
    if f == 'vars' and args and isinstance(args[0], I.Obj):
        return mk('attr', args[0].term, '__dict__')
    if f == 'open':
        ip.event('open', node, targs=tuple(tm(a) for a in args))
    return None


def call_meth(ip, m, args, kw, node):
    b, name = m.base, m.name
    tm = ip.tm
    if isinstance(b, I.PhiV):
        return ip.branch(b.c, lambda: call_meth(ip, I.Meth(b.a, name), args, kw, node),
                         lambda: call_meth(ip, I.Meth(b.b, name), args, kw, node))
    if isinstance(b, I.Super):
        ip.event('extsuper', node, name=name, obj=b.obj, targs=tuple(tm(a) for a in args), tkw=ip.kwterms(kw))
        if name in ('__init__', '__new__', '__setattr__', '__setitem__'):
            return NONE
        return tcall(mk('attr', tm(b), name), tuple(tm(a) for a in args), ip.kwterms(kw))
    if isinstance(b, I.Tab):
        return tab_meth(ip, b, name, args, kw, node)
    if isinstance(b, I.RowV):
        return tcall(mk('attr', tm(b), name), tuple(tm(a) for a in args))
    if isinstance(b, I.ColNames):
        if name in ('index', 'count'):
            return tcall(mk('attr', tm(b), name), tuple(tm(a) for a in args))
        if name == 'copy':
            return b
        ip.event('mutate', node, target=b, meth=name, args=tuple(tm(a) for a in args), base=tm(b))
        return NONE
    if isinstance(b, I.Dct):
        return dict_meth(ip, b, name, args, kw, node)
    if isinstance(b, I.Lst):
        return list_meth(ip, b, name, args, kw, node)
    if isinstance(b, I.Tup):
        if name in ('index', 'count'):
            return tcall(mk('attr', tm(b), name), tuple(tm(a) for a in args))
    t = tm(b)
    if is_const(t) and isinstance(cval(t), str):
        s = cval(t)
        ta = [tm(a) for a in args]
        if name == 'format':
            if all(is_const(x) for x in ta) and not kw:
                try:
                    return const(s.format(*[cval(x) for x in ta]))
                except Exception:
                    pass
            return mk('str', t, *ta, *[v for _, v in ip.kwterms(kw)])
        if name == 'join':
            return mk('str', t, *ta)
        if all(is_const(x) for x in ta) and not kw and hasattr(s, name):
            try:
                r = getattr(s, name)(*[cval(x) for x in ta])
                if isinstance(r, (str, bool, int)):
                    return const(r)
                if isinstance(r, list):
                    return ip.newlist([const(x) for x in r])
            except Exception:
                pass
        return mk('str', t, const(name), *ta)
    if name in ('format', 'join', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'rjust',
                'ljust') and t.op != 'phi':
        if name in ('startswith', 'endswith'):
            return mk('cond', tcall(mk('attr', t, name), tuple(tm(a) for a in args)))
        return tcall(mk('attr', t, name), tuple(tm(a) for a in args), ip.kwterms(kw))
    if name in ('copy', '__copy__', '__deepcopy__') and not args:
        return ip.newcell(t, {'copy': b.loc if isinstance(b, I.Ref) else None})
    if name in ('tolist', 'filled', 'view', 'conj') and not args:
        return b if isinstance(b, I.Ref) and name == 'view' else t
    if name == 'astype':
        return tcall('numpy.astype', (t,) + tuple(tm(a) for a in args))
    if name == 'to' and args:
        return mk('to', t, tm(args[0])) if not kw and len(args) == 1 else \
            mk('to', t, tm(args[0]), *[tm(a) for a in args[1:]], *[v for _, v in ip.kwterms(kw)])
    if name == 'to_value' and args:
        return mk('value', t, tm(args[0]))
    if name == 'decompose' and not args:
        return mk('decompose', t)
    if name in ('keys', 'values', 'items'):
        if name == 'items':
            return I.IterV('items', [b])
        return mk(name, t)
    if name == 'get' and args:
        return tcall(mk('attr', t, 'get'), tuple(tm(a) for a in args), ip.kwterms(kw))
    if name in I.NPMETH and not (name in ('sort', 'index')):
        if name == 'dot':
            return dot(t, tm(args[0]))
        if name == 'transpose':
            return transpose(t) if not args else tcall('numpy.transpose', (t,) + tuple(tm(a) for a in args))
        if name == 'reshape':
            sh = mk('tuple', *[tm(a) for a in args]) if len(args) > 1 else tm(args[0])
            return tcall('numpy.reshape', (t,), (('shape', sh),))
        return npcall(ip, name, [t] + list(args), kw, node)
    if name in I.MUTATORS or name == 'write':
        if name == 'write':
            return ip.call_opaque(mk('attr', t, name), args, kw, node, m)
        ta = tuple(tm(a) for a in args)
        ip.event('mutate', node, target=b, meth=name, args=ta, base=t, tkw=ip.kwterms(kw), target_held=kept(ip, b), held=tuple(kept(ip, a) for a in args))
        if isinstance(b, I.Ref):
            r = tcall(mk('attr', t, name), ta, ip.kwterms(kw))
            if name == 'fill':
                ip.put(b, None, ta[0], node)
                return NONE
            if name == 'put':
                ip.put(b, ta[0], ta[1], node)
                return NONE
            if name == 'append':
                ip.put(b, None, mk('app', t, ta[0]), node)
                return NONE
            ip.put(b, None, mk('mutated', t, name, ta), node)
            return r
        return tcall(mk('attr', t, name), ta, ip.kwterms(kw))
    return ip.call_opaque(mk('attr', t, name), args, kw, node, m)


def tab_meth(ip, t, name, args, kw, node):
    tm = ip.tm
    if name == 'copy':
        c = args[0] if args else kw.get('copy_data')
        if c is not None and is_const(tm(c), False):
            return t
        return copy_tab(ip, t)
    if name == 'keys':
        return I.ColNames(t)
    if name in ('add_column', 'add_columns'):
        if name == 'add_columns':
            its = ip.items_of(args[0])
            nm = ip.items_of(kw['names']) if 'names' in kw else None
            if its is not None:
                for j, c in enumerate(its):
                    tab_meth(ip, t, 'add_column', [c], {'name': nm[j]} if nm else {}, node)
                return NONE
            ip.event('tabstruct', node, tab=t, meth=name, args=tuple(tm(a) for a in args))
            return NONE
        c = args[0] if args else kw.get('col')
        nm = kw.get('name')
        if nm is None and len(args) > 2:
            nm = args[2]
        if nm is None and isinstance(c, I.Ref):
            nm = ip.cellinfo.get(c.loc, {}).get('name')
        if nm is None and isinstance(c, I.PhiV):
            for x in (c.a, c.b):
                if isinstance(x, I.Ref):
                    nm = nm or ip.cellinfo.get(x.loc, {}).get('name')
        ntm = tm(nm) if nm is not None else mk('unknowncol', tm(c))
        ip.event('addcol', node, tab=t, name=ntm, value=tm(c), had=ip.hascol(t, ntm),
                 info=ip.cellinfo.get(c.loc) if isinstance(c, I.Ref) else None)
        r = ip.newcell(tm(c))
        if isinstance(c, I.Ref) and ('unit', c.loc) in ip.st.heap:
            ip.st.heap[('unit', r.loc)] = ip.st.heap[('unit', c.loc)]
        ip.st.heap[('colref', t.tid, ntm)] = r
        ip.st.heap[('colpres', t.tid, ntm)] = TRUE
        return NONE
    if name in I.TABMUT:
        ip.event('tabstruct', node, tab=t, meth=name, args=tuple(tm(a) for a in args), tkw=ip.kwterms(kw))
        if name in ('remove_column', 'remove_columns'):
            its = [args[0]] if name == 'remove_column' else (ip.items_of(args[0]) or [args[0]])
            for x in its:
                x = tm(x)
                ip.st.heap[('colpres', t.tid, x)] = FALSE
        elif name == 'replace_column':
            ip.setcol(t, tm(args[0]), args[1], node)
        else:
            ip.havoc_tab(t, mk('tabop', name))
        return NONE
    if name == 'write':
        ip.event('tabwrite', node, tab=t, base=tm(t), targs=tuple(tm(a) for a in args), tkw=ip.kwterms(kw))
    if name in ('group_by', 'as_array', 'to_pandas', 'iterrows', 'itercols', 'index_column', 'field', 'pformat',
                'write', 'pprint', 'values', 'items', 'filled', 'unique'):
        return tcall(mk('attr', tm(t), name), tuple(tm(a) for a in args), ip.kwterms(kw))
    return tcall(mk('attr', tm(t), name), tuple(tm(a) for a in args), ip.kwterms(kw))


def dict_meth(ip, d, name, args, kw, node):
    tm = ip.tm
    h = ip.st.heap
    key = ('d', d.oid)
    s = h[key]
    if name in ('get', 'pop', 'setdefault') and args:
        k = tm(args[0])
        has_d = len(args) > 1 or 'default' in kw
        dv = args[1] if len(args) > 1 else kw.get('default', NONE)
        v = s.get(k)
        if name == 'pop':
            ip.event('dictpop', node, obj=d, key=k, has_default=has_d)
        if v is not None:
            if name == 'pop':
                h[key] = s.drop(k) if s.open is None else s.set(k, mk('missing'))
            if not has_d and name == 'pop':
                return ip.only(v)
            r = ip.fill(v, dv)
            if name == 'setdefault' and r is not v:
                ip.event('dictset', node, obj=d, key=k, value=tm(r))
                h[key] = s.set(k, ip.bind(r))
            return r
        if s.open is None:
            if is_const(k) and all(is_const(x) for x, _ in s.items):
                if name == 'setdefault':
                    h[key] = s.set(k, ip.bind(dv))
                return dv
            return tcall(mk('attr', tm(d), name), (k, tm(dv)))
        kv = mk('kw', s.open, k)
        if name == 'pop':
            h[key] = I.DState(s.items + ((k, mk('missing')),), s.open)
        if not has_d and name == 'pop':
            return kv
        r = ip.mergev(mk('in', k, s.open), kv, dv)
        if name == 'setdefault':
            ip.event('dictset', node, obj=d, key=k, value=tm(r))
            h[key] = s.set(k, r)
        return r
    if name in ('keys', '__iter__'):
        if ip.items_of(d) is not None:
            return ip.newlist(ip.items_of(d))
        r = mk('keys', tm(d))
        ip.keysof[r] = d
        return r
    if name == 'values':
        if ip.items_of(d) is not None:
            return ip.newlist([v for _, v in s.items if ip.present(v) is TRUE])
        return mk('values', tm(d))
    if name == 'items':
        return I.IterV('items', [d])
    if name == 'copy':
        return ip.newdict(s.items, s.open)
    if name == 'update':
        for a in args:
            if isinstance(a, I.Dct):
                o = h[('d', a.oid)]
                for k, v in o.items:
                    ip.event('dictset', node, obj=d, key=k, value=tm(v))
                    s = s.set(k, v)
                if o.open is not None:
                    ip.event('dictset', node, obj=d, key=mk('any'), value=o.open)
                    s = I.DState(s.items, o.open if s.open is None else mk('both', s.open, o.open))
            else:
                ip.event('dictset', node, obj=d, key=mk('any'), value=tm(a))
                s = I.DState(s.items, mk('updated', s.open if s.open is not None else NONE, tm(a)))
        for k, v in kw.items():
            if k == '**':
                s = I.DState(s.items, v)
            else:
                ip.event('dictset', node, obj=d, key=const(k), value=tm(v))
                s = s.set(const(k), ip.bind(v))
        h[key] = s
        return NONE
    if name in ('clear', 'popitem'):
        ip.event('dictset', node, obj=d, key=mk('any'), value=mk('deleted'))
        if name == 'clear':
            h[key] = I.DState(())
        return NONE
    return tcall(mk('attr', tm(d), name), tuple(tm(a) for a in args))


def list_meth(ip, l, name, args, kw, node):
    tm = ip.tm
    key = ('l', l.oid)
    if name == 'append':
        ip.event('listmut', node, obj=l, meth=name, value=tm(args[0]))
        ip.list_append(l, args[0])
        return NONE
    if name == 'copy':
        its = ip.items_of(l)
        return ip.newlist(its if its is not None else tm(l))
    if name in ('index', 'count'):
        return tcall(mk('attr', tm(l), name), tuple(tm(a) for a in args))
    ip.event('listmut', node, obj=l, meth=name, value=tm(args[0]) if args else NONE)
    its = ip.items_of(l)
    if name == 'extend':
        o = ip.items_of(args[0]) if not isinstance(args[0], I.IterV) else ip.iter_spec(args[0])[0]
        if its is not None and o is not None:
            ip.st.heap[key] = tuple(its + o)
        else:
            ip.st.heap[key] = mk('concat', tm(l), tm(args[0]))
        return NONE
    if name == 'pop' and its:
        i = tm(args[0]) if args else const(-1)
        if is_num(i):
            v = its.pop(cval(i))
            ip.st.heap[key] = tuple(its)
            return v
    if name == 'insert' and its is not None and is_num(tm(args[0])):
        its.insert(cval(tm(args[0])), args[1])
        ip.st.heap[key] = tuple(its)
        return NONE
    if name == 'reverse' and its is not None:
        ip.st.heap[key] = tuple(reversed(its))
        return NONE
    t = tm(l)
    r = tcall(mk('attr', t, name), tuple(tm(a) for a in args))
    ip.st.heap[key] = mk('mutated', t, name, tuple(tm(a) for a in args))
    return r
