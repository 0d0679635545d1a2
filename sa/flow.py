"""Rules on value-flow terms shared by several properties."""
from .term import (T, mk, const, is_const, cval, is_num, idx, show, FULL, TRUE, FALSE, NONE, subterms, contains,
                   not_, canon_index, powr, mul, div, add, phi, sortkey, _mkpoly)

BOOL = {'eq', 'ne', 'lt', 'le', 'and', 'or', 'not', 'in', 'notin', 'is', 'isnot', 'hit', 'isinstance', 'hascol',
        'hasattr'}
BOOLCALLS = {'numpy.isnan', 'numpy.isfinite', 'numpy.isinf', 'numpy.any', 'numpy.all', 'numpy.isin', 'numpy.isclose',
             'numpy.allclose', 'numpy.logical_xor', 'callable', 'numpy.in1d'}


def isbool(t):
    if t.op in BOOL:
        return True
    if t.op == 'sym' and t.args[0] == 'hit':
        return True
    if t.op == 'call' and t.args[0] in BOOLCALLS:
        return True
    if t.op == 'full':
        return is_const(t.args[1], True) or is_const(t.args[1], False)
    if t.op == 'upd':
        return isbool(t.args[0])
    if t.op == 'idx':
        return isbool(t.args[0])
    if t.op == 'phi':
        return isbool(t.args[1]) and isbool(t.args[2])
    return False


# ----------------------------------------------------------------- masks

def conjuncts(m):
    if m.op == 'and':
        return set(m.args)
    return {m}


def implies_hit(i, hit):
    """does index i select only rows where `hit` holds?  True / False / None(unknown)"""
    if i.op == 'tuple' and i.args:
        return implies_hit(i.args[0], hit)
    if i is hit:
        return True
    if hit.op == 'full' and is_const(hit.args[1], True):
        return True
    if i is FULL or is_const(i, Ellipsis):
        return False
    if i.op == 'and':
        rs = [implies_hit(x, hit) for x in i.args]
        return True if True in rs else (None if None in rs else False)
    if i.op == 'or':
        rs = [implies_hit(x, hit) for x in i.args]
        return True if all(r is True for r in rs) else (False if False in rs else None)
    if i.op == 'not':
        if i.args[0] is hit:
            return False
        if i.args[0].op == 'or' and not_(hit) in i.args[0].args:
            return True
    if i.op == 'idx':
        # nonzero(hit)[k], nonzero(hit)[mask of subset]
        b = i.args[0]
        if b.op == 'nonzero':
            return implies_hit(b.args[0], hit)
        return implies_hit(b, hit) if b.op in ('idx', 'nonzero') else None
    if i.op == 'nonzero':
        return implies_hit(i.args[0], hit)
    if i.op == 'phi':
        rs = [implies_hit(x, hit) for x in i.args[1:]]
        return True if all(r is True for r in rs) else (False if False in rs else None)
    if i.op == 'upd':
        # mask[...] = value: hit[hit] = sub  -> subset of hit
        if i.args[0] is hit and i.args[1] is hit:
            return True
        r = implies_hit(i.args[0], hit)
        return r if r is True and is_const(i.args[2], False) else None
    if not contains(i, lambda x: x is hit):
        return False
    return None


# ----------------------------------------------------------------- writes

class Write:
    def __init__(self, guard, path, value, kind):
        self.guard, self.path, self.value, self.kind = guard, path, value, kind

    def __repr__(self):
        return f'<{self.kind} {[show(p, 40) for p in self.path]} = {show(self.value, 80)}>'


def conj(c):
    return c.args if c.op == 'and' else (c,)


def is_base(t, name):
    return t.op == 'col' and is_const(t.args[1], name) or t.op == 'mu'


def writes(t, name, guard=()):
    """decompose the final term of column `name` into the writes that lead to it"""
    if is_base(t, name):
        return []
    if t.op == 'phi':
        return writes(t.args[1], name, guard + conj(t.args[0])) + writes(t.args[2], name, guard + conj(not_(t.args[0])))
    if t.op == 'upd':
        return writes(t.args[0], name, guard) + [Write(guard, (t.args[1],), t.args[2], 'upd')]
    if t.op == 'loop':
        return writes(t.args[0], name, guard) + writes(t.args[1], name, guard)
    if t.op == 'where':
        out = []
        c, x, y = t.args
        if contains(y, lambda z: is_base(z, name)) and is_base(_strip(y), name):
            return writes(y, name, guard) + [Write(guard, (c,), idx(x, c), 'upd')]
        if is_base(_strip(x), name):
            return writes(x, name, guard) + [Write(guard, (not_(c),), idx(y, not_(c)), 'upd')]
    if t.op == 'copyof':
        return writes(t.args[0], name, guard)
    return [Write(guard, (), t, 'replace')]


def _strip(t):
    while t.op in ('upd', 'loop'):
        t = t.args[0]
    return t


# ----------------------------------------------------------------- row typing

class Rows:
    """N-row typing of terms: 'F' one entry per photon, ('S', m) one entry per
    photon selected by m, None anything else."""

    def __init__(self, istab, extra=None):
        self.istab = istab
        self.memo = {}
        self.conflicts = []
        self.extra = extra or {}

    def unify(self, t, *rs):
        r = None
        for x in rs:
            if x is None or x is r:
                continue
            if r is None:
                r = x
            elif r == x:
                pass
            elif r == 'F' or x == 'F':
                self.conflicts.append((t, r, x))
                return None
            else:
                a, b = r[1], x[1]
                if not_(a) is b or (a.op == 'byposition') != (b.op == 'byposition'):
                    self.conflicts.append((t, r, x))
                return None
        return r

    def rt(self, t):
        if not isinstance(t, T):
            return None
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._rt(t)
        self.memo[t] = r
        return r

    def size(self, s):
        """row type of an array whose first dimension is s"""
        if s.op == 'tuple' and s.args:
            return self.size(s.args[0])
        if s.op == 'len':
            x = s.args[0]
            if x.op == 'rows':
                return 'F' if self.istab(x) else None
            return self.rt(x)
        if s.op == 'call' and s.args[0] in ('numpy.sum', 'numpy.count_nonzero') and len(s.args[1]) == 1:
            m = s.args[1][0]
            if isbool(m) and self.rt(m) == 'F':
                return ('S', m)
        if s.op == 'shapeof':
            return self.rt(s.args[0])
        if s.op == 'attr' and s.args[1] == 'shape':
            return self.rt(s.args[0])
        if s.op == 'idx' and is_const(s.args[1], 0):
            return self.size(s.args[0]) if s.args[0].op in ('shapeof', 'attr') else None
        return None

    def _rt(self, t):
        o, a = t.op, t.args
        if t in self.extra:
            return self.extra[t]
        if o == 'col':
            return 'F' if self.istab(a[0]) else None
        if o in ('hit', 'interpos', 'coos') and a:
            return 'F' if self.rt(a[0].args[1]) == 'F' else None
        if o == 'sym' and a[0] in ('hit', 'interpos', 'coos'):
            return 'F'
        if o == 'full':
            self.rt(a[1])
            return self.size(a[0])
        if o == 'range' and len(a) == 1:
            return self.size(a[0])
        if o == 'idx':
            return self.index(t, a[0], a[1])
        if o == 'upd':
            tb = self.rt(a[0])
            self.store(t, a[0], a[1], a[2])
            return tb
        if o == 'phi':
            self.rt(a[0])
            x, y = self.rt(a[1]), self.rt(a[2])
            return x if x == y else (x if y is None else y if x is None else None)
        if o == 'poly':
            return self.unify(t, *[self.rt(x) for mono, _ in a[0] for x, e in mono])
        if o in ('and', 'or', 'not', 'eq', 'ne', 'lt', 'le'):
            return self.unify(t, *[self.rt(x) for x in a])
        if o == 'where':
            return self.unify(t, *[self.rt(x) for x in a])
        if o in ('pow', 'mod', 'floordiv'):
            return self.unify(t, *[self.rt(x) for x in a])
        if o == 'dot':
            for x in a[1:]:
                self.rt(x)
            r = self.rt(a[0])
            # row-wise dot(v, T(w)) with both row typed
            if len(a) == 2 and a[1].op == 'T':
                r2 = self.rt(a[1].args[0])
                if r is not None and r2 is not None:
                    return self.unify(t, r, r2)
            return r
        if o in ('to', 'value', 'copyof', 'deg'):
            return self.rt(a[0]) if isinstance(a[0], T) else None
        if o == 'attr':
            r = self.rt(a[0])
            return r if a[1] in ('data', 'value', 'real') else None
        if o == 'rand':
            rs = []
            for x in a[2]:
                rs.append(self.rt(x))
            sz = None
            for k, v in a[3]:
                if k == 'size':
                    sz = self.size(v)
                else:
                    rs.append(self.rt(v))
            r = self.unify(t, *rs)
            if sz is None and a[2]:
                sz = self.size(a[2][-1])
            return self.unify(t, r, sz) if sz is not None else r
        if o == 'call':
            f = a[0]
            if isinstance(f, str):
                n = f[6:] if f.startswith('numpy.') else f
                ax = dict(a[2]).get('axis')
                if n in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod', 'std', 'median', 'linalg.norm', 'cumsum',
                         'argmax', 'argmin', 'nansum'):
                    rs = [self.rt(x) for x in a[1]]
                    return rs[0] if rs and ax is not None and is_const(ax, -1) else None
                if n == 'interp' and a[1]:
                    for k, v in a[2]:
                        self.rt(v)
                    return self.rt(a[1][0])
                if n in ('stack', 'concatenate', 'column_stack', 'dstack'):
                    its = a[1][0].args if a[1] and a[1][0].op in ('list', 'tuple') else ()
                    rs = [self.rt(x) for x in its if isinstance(x, T)]
                    if n == 'column_stack' or ax is not None and is_const(ax, -1):
                        return self.unify(t, *rs)
                    return None
                if n in ('arange', 'linspace', 'histogram', 'cumprod', 'unique', 'vstack', 'hstack', 'atleast_2d',
                         'meshgrid', 'digitize', 'searchsorted', 'broadcast_to', 'repeat', 'tile', 'ravel', 'reshape'):
                    for x in a[1]:
                        self.rt(x)
                    return self.rt(a[1][0]) if n in ('digitize', 'ravel') and a[1] else None
                if n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'abs', 'clip', 'exp', 'log',
                         'log10', 'cross', 'sign', 'floor', 'ceil', 'rint', 'round', 'mod', 'power', 'hypot', 'minimum',
                         'maximum', 'isnan', 'isfinite', 'sinc', 'sinh', 'cosh', 'nan_to_num', 'isin', 'float', 'int',
                         'remainder', 'fmod', 'argsort', 'isclose', 'array', 'asarray', 'asanyarray', 'atleast_1d',
                         'conjugate', 'logical_xor', 'deg2rad', 'rad2deg', 'expand_dims', 'astype', 'trunc'):
                    return self.unify(t, *[self.rt(x) for x in a[1] if x.op not in ('list', 'tuple')])
                for x in a[1]:
                    self.rt(x)
                return None
            # unknown code called with row typed arguments: one result per row
            rs = [self.rt(x) for x in a[1]] + [self.rt(v) for k, v in a[2]]
            return self.unify(t, *rs)
        if o == 'T':
            x = a[0]
            if x.op == 'list':
                return self.unify(t, *[self.rt(y) for y in x.args])
            if x.op == 'call' and x.args[0] in ('numpy.stack', 'numpy.vstack') and x.args[1] and \
                    x.args[1][0].op == 'list' and not x.args[2]:
                return self.unify(t, *[self.rt(y) for y in x.args[1][0].args])
            self.rt(x)
            return None
        if o == 'loop':
            r = self.rt(a[0])
            if isinstance(a[1], T):
                self.rt(a[1])
            return r
        for x in a:
            if isinstance(x, T):
                self.rt(x)
        return None

    def index(self, t, b, i):
        tb = self.rt(b)
        c0 = i.args[0] if i.op == 'tuple' and i.args else i
        if c0 is FULL or is_const(c0, Ellipsis):
            for x in (i.args[1:] if i.op == 'tuple' else ()):
                self.rt(x)
            if len(i.args) > 1 and i.op == 'tuple' and is_const(c0, Ellipsis):
                # row[..., k]: still one entry per row if b is 2-d
                return tb
            return tb
        if c0.op == 'slice':
            return ('S', mk('byposition', c0)) if tb == 'F' else None
        if is_const(c0):
            return None
        ti = self.rt(c0)
        if isbool(c0):
            if tb == 'F' and ti == 'F':
                return ('S', c0)
            if tb == 'F' and isinstance(ti, tuple) or isinstance(tb, tuple) and ti == 'F':
                self.conflicts.append((t, tb, ti))
                return None
            if isinstance(tb, tuple) and isinstance(ti, tuple):
                return ('S', mk('sub', tb[1], c0))
            return None
        if c0.op in ('it',):
            return None
        return ti

    def store(self, t, b, i, v):
        """value v stored into b[i]"""
        tb, tv = self.rt(b), self.rt(v)
        c0 = i.args[0] if i.op == 'tuple' and i.args else i
        if c0 is FULL or is_const(c0, Ellipsis):
            if tb is not None and tv is not None and tb != tv and ('F' in (tb, tv)):
                self.conflicts.append((t, tb, tv))
            return
        ti = self.rt(c0)
        if isbool(c0):
            if isinstance(ti, tuple) and tb == 'F' or ti == 'F' and isinstance(tb, tuple):
                self.conflicts.append((t, tb, ti))
                return
            if tb == 'F' and tv == 'F':
                self.conflicts.append((t, ('S', c0), tv))
            if tb == 'F' and isinstance(tv, tuple) and (not_(tv[1]) is c0 or tv[1].op == 'byposition'):
                self.conflicts.append((t, ('S', c0), tv))


# ----------------------------------------------------------------- multiplicative updates

class Mult:
    """is a term the old value of `name` times something?"""

    def __init__(self, name):
        self.name = name

    def base_path(self, t):
        """t is idx^k(base): -> list of index terms, else None"""
        p = []
        while True:
            if t.op == 'idx':
                p.append(t.args[1])
                t = t.args[0]
                continue
            if is_base(t, self.name):
                return tuple(reversed(p))
            return None

    def has_base(self, t):
        return contains(t, lambda x: is_base(x, self.name))

    def split(self, t, path):
        """list of (guard, verdict, factor) for all alternatives of t seen as
        a new value for old[path].  verdict: 'keep','zero','mult','rows','replace','power','?'"""
        if is_const(t, 0) or is_const(t, False):
            return [((), 'zero', t)]
        if t.op == 'full' and is_const(t.args[1], 0):
            return [((), 'zero', t)]
        bp = self.base_path(t)
        if bp is not None:
            return [((), 'keep' if bp == path else 'rows', t)]
        if t.op == 'phi':
            c = t.args[0]
            return [(conj(c) + g, v, f) for g, v, f in self.split(t.args[1], path)] + \
                   [(conj(not_(c)) + g, v, f) for g, v, f in self.split(t.args[2], path)]
        if t.op == 'where':
            c = t.args[0]
            return [(conj(c) + g, v, f) for g, v, f in self.split(t.args[1], path)] + \
                   [(conj(not_(c)) + g, v, f) for g, v, f in self.split(t.args[2], path)]
        if t.op == 'upd':
            out = self.split(t.args[0], path)
            return out + self.split(t.args[2], path + (t.args[1],))
        if t.op == 'loop':
            return self.split(t.args[0], path) + self.split(t.args[1], path)
        if t.op == 'copyof':
            return self.split(t.args[0], path)
        if t.op == 'idx':
            # index into a modified version
            b, i = t.args
            if path and path[-1] is i:
                return self.split(b, path[:-1])
            if self.has_base(b) and b.op in ('upd', 'phi', 'loop', 'where', 'poly'):
                inner = self.split(b, path[:-1] if path else ())
                if all(v in ('keep', 'mult', 'zero') for _, v, _ in inner):
                    return [((), 'rows' if self.plain(i) and all(self.plain(p) for p in path) else '?', t)]
            return [((), '?' if self.has_base(t) else 'replace', t)]
        if t.op == 'poly':
            return self.poly(t, path)
        if t.op == 'mu' or t.op == 'loopvar':
            return [((), 'keep', t)]
        if not self.has_base(t):
            return [((), 'replace', t)]
        if t.op == 'call' and t.args[0] == 'numpy.clip':
            return [((), '?', t)]
        return [((), '?', t)]

    def plain(self, i):
        return True

    def poly(self, t, path):
        fac = const(0)
        verdicts = []
        for mono, c in t.args[0]:
            bases = [(x, e) for x, e in mono if self.valuebase(x)]
            rest = [(x, e) for x, e in mono if not self.valuebase(x)]
            if len(bases) == 0:
                verdicts.append('replace' if not any(self.has_base(x) for x, _ in rest) else '?')
                continue
            if len(bases) > 1 or bases[0][1] != 1:
                verdicts.append('power')
                continue
            sub = self.split(bases[0][0], path)
            for g, v, f in sub:
                if v in ('rows', 'replace', 'power', '?'):
                    verdicts.append(v)
            f = const(int(c) if c.denominator == 1 else float(c))
            for x, e in rest:
                f = mul(f, powr(x, e))
            fac = add(fac, f)
        if verdicts:
            order = ['replace', 'power', 'rows', '?']
            v = min(verdicts, key=order.index)
            return [((), v, t)]
        return [((), 'mult', fac)]

    def valuebase(self, x):
        """atom whose value derives from the old probability"""
        while x.op in ('idx', 'upd', 'loop', 'copyof'):
            x = x.args[0]
        if is_base(x, self.name):
            return True
        if x.op in ('phi', 'where'):
            return any(self.valuebase(y) for y in x.args[1:])
        return False


# ----------------------------------------------------------------- ranges

def in_unit(t, facts=()):
    """provably within [0, 1]: True / False(out of range constant) / None"""
    if is_num(t):
        return 0 <= cval(t) <= 1
    if isbool(t) or is_const(t, True) or is_const(t, False):
        return True
    if guarded(t, facts):
        return True
    o, a = t.op, t.args
    if o == 'call':
        f = a[0]
        if f == 'numpy.clip':
            if is_num(a[1][1]) and is_num(a[1][2]):
                lo, hi = cval(a[1][1]), cval(a[1][2])
                if 0 <= lo <= hi <= 1:
                    return True
                return None if in_unit(a[1][0], facts) is None and not (lo < 0 or hi > 1) else None
        if f in ('numpy.abs',) and a[1][0].op == 'call' and a[1][0].args[0] in ('numpy.sin', 'numpy.cos'):
            return True
        if f in ('numpy.minimum', 'numpy.maximum'):
            rs = [in_unit(x, facts) for x in a[1]]
            return True if all(rs) else None
        if f in ('numpy.array', 'numpy.asarray', 'numpy.float', 'float', 'builtins.float') and a[1]:
            return in_unit(a[1][0], facts)
        return None
    if o == 'poly':
        # product of in-range factors with non-negative exponent
        if len(a[0]) == 1:
            mono, c = a[0][0]
            if 0 < c <= 1 and all(e > 0 and (in_unit(x, facts) or even_trig(x, e)) for x, e in mono):
                return True
        if len(a[0]) == 2:      # 1 - x
            d = dict(a[0])
            if d.get(()) == 1:
                (mono, c), = [(m, c) for m, c in a[0] if m != ()]
                if -1 <= c < 0 and all(e > 0 and (in_unit(x, facts) or even_trig(x, e)) for x, e in mono):
                    return True
        return None
    if o == 'phi' or o == 'where':
        rs = [in_unit(x, facts) for x in a[1:]]
        return True if all(rs) else (False if False in rs else None)
    if o == 'upd':
        rs = [in_unit(a[0], facts), in_unit(a[2], facts)]
        return True if all(rs) else (False if False in rs else None)
    if o == 'full':
        return in_unit(a[1], facts)
    if o == 'idx':
        return in_unit(a[0], facts)
    if o in ('value', 'to', 'copyof'):
        return in_unit(a[0], facts)
    if o == 'rand':
        if a[1] == 'numpy.random.uniform' and not {'low', 'high'} & set(dict(a[3])):
            return True
    return None


def even_trig(x, e):
    return x.op == 'call' and x.args[0] in ('numpy.sin', 'numpy.cos') and isinstance(e, int) and e % 2 == 0


def range_guards(facts):
    """comparisons with constants that hold for sure because the opposite raises:
    list of (lhs term, op, rhs term) over elements"""
    out = []
    for f in facts:
        _holds(f, True, out)
    return out


def _holds(f, pos, out):
    if f.op == 'not':
        return _holds(f.args[0], not pos, out)
    if f.op == 'and' and pos or f.op == 'or' and not pos:
        for x in f.args:
            _holds(x, pos, out)
        return
    if f.op == 'call' and f.args[0] in ('numpy.any', 'numpy.all', 'any', 'all', 'builtins.any', 'builtins.all',
                                        'numpy.sum', 'numpy.count_nonzero') and f.args[1]:
        q = f.args[0].split('.')[-1]
        if q == 'all' and pos or q in ('any', 'sum', 'count_nonzero') and not pos:
            return _holds(f.args[1][0], pos, out)
        return
    if f.op in ('eq',) and pos:
        a, b = f.args
        for x, y in ((a, b), (b, a)):
            if is_const(x, 0) and y.op == 'call' and y.args[0] in ('numpy.sum', 'numpy.count_nonzero') and y.args[1]:
                return _holds(y.args[1][0], False, out)
    if f.op == 'lt' and not pos and is_const(f.args[0], 0) and f.args[1].op == 'call' and \
            f.args[1].args[0] in ('numpy.sum', 'numpy.count_nonzero'):
        return _holds(f.args[1].args[1][0], False, out)
    if f.op in ('lt', 'le'):
        a, b = f.args
        if not pos:      # not a<b  ->  b<=a
            a, b = b, a
            op = 'le' if f.op == 'lt' else 'lt'
        else:
            op = f.op
        out.append((a, op, b))


def guarded(t, facts):
    lo = hi = False
    for a, op, b in facts if facts and isinstance(facts, list) else range_guards(facts):
        for x, y, side in ((a, b, 'lo'), (b, a, 'hi')):
            pass
        if is_num(a) and _same(b, t, 'min') and cval(a) >= 0:
            lo = True
        if is_num(b) and _same(a, t, 'max') and cval(b) <= 1:
            hi = True
    return lo and hi


def _same(x, t, ext):
    if x is t:
        return True
    if x.op == 'call' and x.args[0] in ('numpy.' + ext, 'numpy.nan' + ext, ext, 'builtins.' + ext) and x.args[1]:
        return _same(x.args[1][0], t, ext)
    if x.op == 'call' and x.args[0] in ('numpy.asarray', 'numpy.array', 'numpy.asanyarray') and x.args[1]:
        return _same(x.args[1][0], t, ext)
    return False
