"""Hash-consed value-flow terms with a canonical form.

A term stands for "the value computed this way".  Two expressions that differ
only in temporaries, helper functions, operand order of commutative operators,
`np.dot` versus `@`, subtraction versus addition of a negation, ... have the
same term; this is what makes the rules built on it insensitive to how the
code is written.
"""
from fractions import Fraction


class T:
    __slots__ = ('op', 'args', '_h', '_k')
    pool = {}

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


LOOPOPS = frozenset(('loop', 'map', 'after', 'app'))
made = []       # collects the loops of an evaluation, see equiv.run_owner


def mk(op, *args):
    key = (op, args)
    t = T.pool.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args = op, args
        t._h = hash(key)
        t._k = None
        T.pool[key] = t
    if op in LOOPOPS and made:
        made[-1](t)
    return t


class K:
    """constant wrapper distinguishing True / 1 / 1.0 for hashing"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        v = self.v
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return (type(v).__name__, v)
        if isinstance(v, (int, float)):
            return ('num', v) if v == v and abs(v) != float('inf') else ('fl', repr(v))
        return (type(v).__name__, repr(v))

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, K) and self.key() == o.key()

    def __repr__(self):
        return repr(self.v)


def const(v):
    if isinstance(v, float) and v.is_integer() and abs(v) < 1e15:
        v = int(v)      # 1.0 and 1 denote the same number
    return mk('const', K(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = const(Ellipsis)


_ANY = object()


def is_const(t, v=_ANY):
    if not isinstance(t, T) or t.op != 'const':
        return False
    if v is _ANY:
        return True
    return t.args[0] == K(v)


def cval(t):
    return t.args[0].v


def is_num(t):
    if not (isinstance(t, T) and t.op == 'const'):
        return False
    v = t.args[0].v
    return isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float('inf')


def sortkey(t):
    if isinstance(t, T):
        if t._k is None:
            t._k = show(t, 10 ** 6)
        return t._k
    return repr(t)


# ------------------------------------------------------------ printing

def show(t, limit=400):
    out = _show(t)
    return out if len(out) <= limit else out[:limit] + '...'


def _show(t):
    if isinstance(t, tuple):
        return '(' + ', '.join(_show(a) for a in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if t._k is not None:
        return t._k
    o, a = t.op, t.args
    if o == 'const':
        r = repr(a[0])
    elif o == 'attr':
        r = f'{_show(a[0])}.{a[1]}'
    elif o == 'idx':
        r = f'{_show(a[0])}[{_show(a[1])}]'
    elif o == 'upd':
        r = f'{{{_show(a[0])} with [{_show(a[1])}]={_show(a[2])}}}'
    elif o == 'phi':
        r = f'({_show(a[1])} if {_show(a[0])} else {_show(a[2])})'
    elif o == 'call':
        r = f'{_show(a[0])}({", ".join(_show(x) for x in a[1])}' + \
            ''.join(f', {k}={_show(v)}' for k, v in a[2]) + ')'
    elif o == 'poly':
        parts = []
        for mono, c in a[0]:
            s = '*'.join(_show(x) + (f'^{e}' if e != 1 else '') for x, e in mono)
            if not s:
                s = str(float(c)) if c.denominator != 1 else str(c)
            elif c != 1:
                s = (str(float(c)) if c.denominator != 1 else str(c)) + '*' + s
            parts.append(s)
        r = '(' + ' + '.join(parts) + ')'
    elif o in ('param', 'glob', 'sym', 'col'):
        r = '.'.join(_show(x) for x in a)
    elif o == 'slice':
        r = ':'.join('' if is_const(x, None) else _show(x) for x in a)
    else:
        r = f'{o}(' + ', '.join(_show(x) for x in a) + ')'
    t._k = r
    return r


# ------------------------------------------------------------ arithmetic

MAXTERMS = 60


def _poly(t):
    """-> dict mono -> coef"""
    if is_num(t):
        f = Fraction(cval(t))
        return {(): f} if f else {}
    if isinstance(t, T) and t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(int(c) if c.denominator == 1 else float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (tuple((sortkey(x), e) for x, e in mc[0]), mc[1])))
    return mk('poly', items)


def _mulmono(a, b):
    d = {}
    for x, e in a + b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: sortkey(xe[0])))


def add(a, b):
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(a):
    return _mkpoly({m: -c for m, c in _poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        pa = {((a, 1),): Fraction(1)} if len(pa) > 1 else pa
        pb = {((b, 1),): Fraction(1)} if len(pb) > 1 else pb
    d = {}
    for ma, ca in pa.items():
        for mb, cb in pb.items():
            m = _mulmono(ma, mb)
            d[m] = d.get(m, 0) + ca * cb
    return _mkpoly(d)


def powr(a, n):
    """n python number"""
    if n == 0:
        return const(1)
    if n == 1:
        return a
    p = _poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        frac = Fraction(n).limit_denominator(10 ** 6)
        if isinstance(n, int) or frac.denominator == 1:
            k = int(n)
            if c == 0:
                return const(0) if k > 0 else mk('poly', (((((a, -1),)), Fraction(1)),))
            return _mkpoly({tuple((x, e * k) for x, e in m): c ** k})
        if frac == Fraction(1, 2) and not m and c >= 0:
            from math import isqrt
            r = Fraction(isqrt(c.numerator), isqrt(c.denominator))
            if r * r == c:
                return const(int(r) if r.denominator == 1 else float(r))
    if isinstance(n, int) and 2 <= n <= 3 and len(p) ** n <= MAXTERMS:
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r
    e = n if not (isinstance(n, float) and n.is_integer()) else int(n)
    return _mkpoly({((a, e),): Fraction(1)})


def div(a, b):
    return mul(a, powr(b, -1))


# ------------------------------------------------------------ logic

def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if is_const(a):
        return const(not cval(a))
    if a.op == 'not':
        return a.args[0]
    flip = {'eq': 'ne', 'ne': 'eq', 'is': 'isnot', 'isnot': 'is', 'in': 'notin', 'notin': 'in'}
    if a.op in flip:
        return mk(flip[a.op], *a.args)
    if a.op in ('and', 'or'):
        return _bool('or' if a.op == 'and' else 'and', [not_(x) for x in a.args])
    return mk('not', a)


def truth(t):
    """True/False/None"""
    if is_const(t):
        return bool(cval(t))
    return None


def and_(*xs):
    return _bool('and', xs)


def or_(*xs):
    return _bool('or', xs)


def _bool(op, xs):
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    s = set()
    for x in xs:
        if x.op == op:
            s.update(x.args)
        elif x is unit:
            pass
        else:
            s.add(x)
    if zero in s:
        return zero
    for x in s:
        if not_(x) in s:
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return s.pop()
    return mk(op, *sorted(s, key=sortkey))


def cmp_(op, a, b):
    """op in Python ast names"""
    if op == 'Gt':
        return cmp_('Lt', b, a)
    if op == 'GtE':
        return cmp_('LtE', b, a)
    if op in ('Eq', 'NotEq', 'Lt', 'LtE') and is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        try:
            r = {'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y, 'LtE': lambda: x <= y}[op]()
            return const(bool(r))
        except Exception:
            pass
    for x, y, lt in ((a, b, True), (b, a, False)):
        if y.op == 'nsize' and is_const(x):
            # y >= 0, and y >= 1 iff its condition holds
            if op in ('Eq', 'NotEq') and cval(x) == 0:
                return not_(y.args[0]) if op == 'Eq' else y.args[0]
            if lt and ((op == 'Lt' and cval(x) == 0) or (op == 'LtE' and cval(x) == 1)):
                return y.args[0]
            if not lt and ((op == 'Lt' and cval(x) == 1) or (op == 'LtE' and cval(x) == 0)):
                return not_(y.args[0])
    if op in ('Is', 'IsNot') and is_const(a) and is_const(b):
        r = a is b
        return const(r if op == 'Is' else not r)
    if op in ('Eq', 'NotEq'):
        a, b = sorted((a, b), key=sortkey)
        return mk('eq' if op == 'Eq' else 'ne', a, b)
    return mk({'Lt': 'lt', 'LtE': 'le', 'Is': 'is', 'IsNot': 'isnot', 'In': 'in', 'NotIn': 'notin'}[op], a, b)


BOOLOPS = ('eq', 'lt', 'le', 'is', 'in', 'hascol', 'and', 'or', 'not', 'isinstance', 'hasattr')


def phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(c, T) and c.op in ('not', 'ne', 'isnot', 'notin', 'or'):
        return phi(not_(c), b, a)
    if a is c:
        a = TRUE
    if b is c:
        b = FALSE
    if a is b:
        return a
    if a is TRUE and b is FALSE and c.op in BOOLOPS:
        return c
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # nested tests with a common alternative are one test
    if a.op == 'phi':
        if a.args[2] is b:
            return phi(and_(c, a.args[0]), a.args[1], b)
        if a.args[1] is b:
            return phi(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == 'phi':
        if b.args[1] is a:
            return phi(or_(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return phi(or_(c, not_(b.args[0])), a, b.args[1])
    return mk('phi', c, a, b)


# ------------------------------------------------------------ indexing

FULL = mk('slice', NONE, NONE, NONE)


def _comp(i):
    return i.args if i.op == 'tuple' else (i,)


def disjoint(i, j):
    a, b = _comp(i), _comp(j)
    for x, y in zip(a, b):
        if is_const(x) and is_const(y) and x is not y and not is_const(x, Ellipsis) and not is_const(y, Ellipsis):
            if isinstance(cval(x), str) == isinstance(cval(y), str):
                if isinstance(cval(x), str) or (cval(x) is not None and cval(y) is not None and
                                                (cval(x) >= 0) == (cval(y) >= 0)):
                    return True
        if x.op == 'not' and x.args[0] is y or y.op == 'not' and y.args[0] is x:
            return True
    return False


def canon_index(i):
    """x[m, :] is x[m]; x[np.nonzero(m)] is x[m]; x[..., ] etc."""
    if i.op == 'nonzero':
        return canon_index(i.args[0])
    if i.op == 'tuple' and any(a.op == 'nonzero' for a in i.args):
        i = mk('tuple', *[a.args[0] if a.op == 'nonzero' else a for a in i.args])
    if i.op == 'tuple':
        a = list(i.args)
        while len(a) > 1 and a[-1] is FULL:
            a.pop()
        if len(a) == 1:
            return a[0]
        if len(a) != len(i.args):
            return mk('tuple', *a)
    return i


def idx(b, i):
    i = canon_index(i)
    if i is FULL or is_const(i, Ellipsis):
        return b
    if b.op in ('tuple', 'list') and is_num(i) and isinstance(cval(i), int):
        n = cval(i)
        if -len(b.args) <= n < len(b.args):
            return b.args[n]
    if b.op == 'dict' and is_const(i):
        for k, v in b.args:
            if k is i:
                return v
    if b.op == 'upd':
        if b.args[1] is i:
            return b.args[2]
        if disjoint(b.args[1], i):
            return idx(b.args[0], i)
    if b.op == 'phi':
        x, y = idx(b.args[1], i), idx(b.args[2], i)
        return phi(b.args[0], x, y)
    if b.op == 'idx':
        j = b.args[1]
        # x[:, k][m] and x[m][:, k] are x[m, k]
        if _colsel(j) is not None and _rowmask(i):
            return idx(b.args[0], mk('tuple', i, _colsel(j)))
        if _rowmask(j) and _colsel(i) is not None:
            return idx(b.args[0], mk('tuple', j, _colsel(i)))
    return mk('idx', b, i)


def _colsel(i):
    if i.op == 'tuple' and len(i.args) == 2 and i.args[0] is FULL and \
            (is_num(i.args[1]) or i.args[1].op == 'slice'):
        return i.args[1]
    return None


def _rowmask(i):
    return not (is_const(i) or i.op in ('it', 'mu', 'tuple', 'fstr', 'str', 'key', 'floordiv', 'len'))


def upd(b, i, v):
    i = canon_index(i)
    if i is FULL or is_const(i, Ellipsis):
        x = b
        while x.op == 'upd':
            x = x.args[0]
        return mk('full', x.args[0], v) if x.op == 'full' and (is_const(v) or show(v, 40) in ('numpy.nan', 'numpy.inf')) else v
    if v is idx(b, i):
        return b
    if b.op == 'upd':
        if b.args[1] is i:
            return upd(b.args[0], i, v)
        if disjoint(b.args[1], i) and sortkey(i) < sortkey(b.args[1]):
            return mk('upd', upd(b.args[0], i, v), b.args[1], b.args[2])
    return mk('upd', b, i, v)


def _factor(x):
    """(number, rest) of a term that is a number times something"""
    if x.op == 'poly':
        m = x.args[0]
        if len(m) == 1:
            c = m[0][1]
            if c != 1 and m[0][0]:
                return c, _mkpoly({m[0][0]: Fraction(1)})
        elif m and all(k for k, _ in m):
            lead = min(m, key=lambda kc: [(sortkey(z), e) for z, e in kc[0]])
            if lead[1] < 0:
                return -1, neg(x)
    return 1, x


def dot(*xs):
    out = []
    k = Fraction(1)
    ys = []
    for x in xs:
        c, y = _factor(x)
        k = k * c
        ys.append(y)
    if k != 1:
        return _mkpoly({m: c * k for m, c in _poly(dot(*ys)).items()})
    for x in xs:
        if x.op == 'dot':
            out.extend(x.args)
        else:
            out.append(x)
    # identity matrices vanish
    out2 = [x for x in out if not is_eye(x)]
    if not out2:
        return out[0]
    # A . inv(A)
    i = 0
    while i < len(out2) - 1:
        if inv(out2[i]) is out2[i + 1]:
            del out2[i:i + 2]
            i = max(0, i - 1)
            if not out2:
                return out[0] if is_eye(out[0]) else call('numpy.eye', (const(4),))
        else:
            i += 1
    if len(out2) == 1:
        return out2[0]
    return mk('dot', *out2)


def is_eye(x):
    return x.op == 'call' and x.args[0] in ('numpy.eye', 'numpy.identity')


def inv(x):
    if x.op == 'inv':
        return x.args[0]
    if is_eye(x):
        return x
    if x.op == 'T':
        return transpose(inv(x.args[0]))
    if x.op == 'dot':
        return dot(*[inv(a) for a in reversed(x.args)])
    return mk('inv', x)


def transpose(x):
    if x.op == 'T':
        return x.args[0]
    if is_eye(x):
        return x
    if x.op == 'dot':
        return dot(*[transpose(a) for a in reversed(x.args)])
    if x.op == 'phi':
        return phi(x.args[0], transpose(x.args[1]), transpose(x.args[2]))
    return mk('T', x)


LASTAX = {'numpy.sum', 'numpy.mean', 'numpy.max', 'numpy.min', 'numpy.any', 'numpy.all', 'numpy.linalg.norm'}


def call(f, args, kw=()):
    if f in LASTAX and kw:
        kw = tuple((k, const(-1) if k == 'axis' and is_const(v, 1) else v) for k, v in kw)
    if f == 'numpy.all' and len(args) == 1 and all(k == 'axis' for k, _ in kw):
        return not_(call('numpy.any', (not_(args[0]),), kw))
    if f == 'numpy.any' and len(args) == 1 and isinstance(args[0], T) and args[0].op == 'or' and all(k == 'axis' for k, _ in kw):
        return or_(*[call(f, (x,), kw) for x in args[0].args])
    return mk('call', f, tuple(args), tuple(sorted(kw, key=lambda kv: kv[0])))


# ------------------------------------------------------------ traversal

def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tch(a)


def _tch(tp):
    for a in tp:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tch(a)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def _re(op):
    return lambda a, b: cmp_(op, a, b)


def _rin(a, b):
    if is_const(a) and b.op in ('list', 'tuple'):
        items = b.args
        if len(items) == 1 and isinstance(items[0], tuple):
            items = items[0]
        if all(is_const(x) for x in items):
            return const(a in items)
    return mk('in', a, b)


def _rnotin(a, b):
    return not_(_rin(a, b))


def rebuild(t, f, memo=None):
    """bottom-up map re-normalising"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]

    def go(a):
        if isinstance(a, T):
            return rebuild(a, f, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    if t.op == 'poly':
        r = const(0)
        for mono, c in t.args[0]:
            m = const(int(c) if c.denominator == 1 else float(c))
            for x, e in mono:
                m = mul(m, powr(rebuild(x, f, memo), e))
            r = add(r, m)
    else:
        args = tuple(go(a) for a in t.args)
        r = {'idx': idx, 'upd': upd, 'phi': phi, 'dot': dot, 'inv': inv, 'T': transpose, 'and': and_,
             'or': or_, 'not': not_, 'call': call, 'eq': _re('Eq'), 'ne': _re('NotEq'),
             'lt': _re('Lt'), 'le': _re('LtE'), 'in': _rin, 'notin': _rnotin}.get(t.op, lambda *a: mk(t.op, *a))(*args)
    r = f(r)
    memo[t] = r
    return r


def substitute(t, mapping):
    return rebuild(t, lambda x: mapping.get(x, x), dict(mapping))


def conds_of(t):
    return {x.args[0] for x in subterms(t) if x.op == 'phi'}


def assume(t, facts):
    """resolve conditions under facts: dict cond->bool"""
    m = {}
    for c, b in facts.items():
        m[c] = TRUE if b else FALSE
        m[not_(c)] = FALSE if b else TRUE
        if b and c.op == 'eq':
            k = [x for x in c.args if is_const(x)]
            o = [x for x in c.args if x.op == 'sym']
            if len(k) == 1 and len(o) == 1:
                m[o[0]] = k[0]

    def f(x):
        return m.get(x, x)
    return rebuild(t, f)


def cases(t, limit=64):
    """all phi-free alternatives of t: list of (facts, term)"""
    out = []
    work = [({}, t)]
    while work:
        facts, x = work.pop()
        c = None
        for y in subterms(x):
            if y.op == 'phi':
                # choose an outermost condition that itself is phi free
                if not any(z.op == 'phi' for z in subterms(y.args[0])):
                    c = y.args[0]
                    break
        if c is None:
            out.append((facts, x))
            continue
        if len(out) + len(work) > limit:
            out.append((facts, x))
            continue
        for b in (True, False):
            f2 = dict(facts)
            f2[c] = b
            work.append((f2, assume(x, f2)))
    return out
