"""Comparison of a function of the code base with its specification.

A specification is a small Python function in /verif/spec that states, from the documented
mathematics, what the function has to return (and which attributes, columns and errors it has to
produce).  It is never executed: both the function and the specification are turned into
value-flow terms over the same symbolic arguments and the canonical terms are compared.

Verdicts:  equal  |  differ (definite)  |  unknown.
A difference is definite only when the smallest differing sub-terms are built from operations whose
meaning is known and that are comparable with the ones in the specification; anything that could be the same
computation in a shape the canonical form does not relate (a loop instead of a vectorised
expression, an unknown helper, ...) is `unknown` and never reported."""
import ast
from collections import deque
from .interp import (Interp, Obj, Tab, Tup, Dct, Ref, Func, Frame, Bound, Dead, Budget, T, ClsV, Meth)
from .term import mk, const, is_const, cval, show, call as tcall, subterms, and_, or_, rebuild, TRUE, children, not_, sortkey, assume, cmp_, FALSE, substitute
from . import term, elements as E
from .extlib import kept, narrow

# operations with a fixed elementary meaning
ELEM = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sqrt', 'exp', 'log', 'log10', 'abs', 'sum', 'min',
        'max', 'mean', 'median', 'std', 'var', 'any', 'all', 'floor', 'ceil', 'round', 'rint', 'sign', 'cross', 'clip', 'minimum',
        'maximum', 'isnan', 'isfinite', 'cumsum', 'argmin', 'argmax', 'argsort', 'sort', 'sinh', 'cosh', 'tanh', 'mod', 'remainder', 'nan_to_num', 'fix', 'nanmax', 'nanmin', 'nanargmin', 'nanargmax', 'cbrt', 'arcsinh', 'arccosh', 'arctanh', 'rot90',
        'linalg.norm', 'linalg.inv', 'linalg.det', 'prod', 'outer', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'eye', 'digitize',
        'searchsorted', 'isclose', 'allclose', 'interp', 'linspace', 'arange', 'diff', 'percentile', 'trace', 'hypot', 'sinc',
        'logical_xor', 'nanmean', 'nansum', 'nanmedian', 'nanstd', 'histogram', 'unique', 'einsum', 'roll', 'hstack', 'vstack',
        'concatenate', 'stack', 'column_stack', 'tile', 'repeat', 'isin', 'gradient', 'average', 'empty', 'zeros', 'ones',
        'random.rand', 'random.randint', 'random.normal', 'random.uniform', 'random.choice', 'random.exponential', 'random.poisson',
        'random.standard_normal', 'random.multivariate_normal', 'random.shuffle', 'random.permutation', 'diag', 'squeeze',
        'swapaxes', 'moveaxis', 'logical_and', 'logical_or', 'logical_not', 'fabs', 'power', 'exp2', 'log1p', 'expm1',
        'nan', 'inf', 'pi', 'triu', 'tril', 'fmod', 'trunc', 'cumprod', 'ptp', 'nonzero', 'where', 'corrcoef', 'cov'}
STRUCT = {'const', 'sym', 'attr', 'poly', 'idx', 'tuple', 'list', 'slice', 'phi', 'upd', 'eq', 'ne', 'lt', 'le', 'and', 'or',
          'not', 'is', 'isnot', 'in', 'notin', 'dot', 'T', 'inv', 'full', 'where', 'nonzero', 'col', 'glob', 'func', 'truthy',
          'isinstance', 'hascol', 'len', 'rand', 'floordiv', 'mod', 'pow', 'hit', 'interpos', 'coos', 'isect', 'dict', 'to',
          'quantity', 'hasattr', 'callable', 'str', 'new', 'param', 'kw', 'rows', 'abs', 'min', 'max', 'unit', 'copyof',
          'arange', 'range', 'fstr', 'dctget', 'tabver', 'shuffled', 'getattr', 'map', 'it', 'mu', 'loop', 'kwdict', 'star', 'undef', 'sorted'}
LOOPY = {'loop', 'mu', 'map', 'after', 'it', 'zip', 'enumerate', 'app', 'havoc', 'lambda', 'closure', 'yield', 'genexp', 'filter',
         'star'}


def bare(f):
    for p in ('numpy.', 'math.', 'builtins.', 'scipy.'):
        if isinstance(f, str) and f.startswith(p):
            return f[len(p):]
    return f


def heads(t):
    out = set()
    for x in subterms(t):
        if x.op == 'call':
            f = x.args[0]
            if isinstance(f, str):
                out.add(('call', bare(f)))
            elif f.op == 'func':
                out.add(('func', f.args[0]))
            elif f.op == 'attr':
                out.add(('meth', f.args[1]))
            else:
                out.add(('callv', f.op))
        else:
            out.add(('op', x.op))
    return out


def known_heads(code, spec_heads):
    """heads of `code` that neither the specification uses nor have an elementary meaning"""
    bad = set()
    for h in code:
        if h in spec_heads:
            continue
        if h[0] == 'op' and h[1] in STRUCT and h[1] not in LOOPY:
            continue
        if h[0] == 'call' and h[1] in ELEM:
            continue
        bad.add(h)
    return bad


def _split(t):
    """(head, children) for descent"""
    if t.op == 'call':
        return ('call', t.args[0], len(t.args[1]), tuple(k for k, _ in t.args[2])), list(t.args[1]) + [v for _, v in t.args[2]]
    if t.op == 'poly':
        return None, None
    ch, sk = [], []

    def go(a):
        if isinstance(a, T):
            ch.append(a)
            return '#'
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    sk = tuple(go(a) for a in t.args)
    return (t.op, sk), ch


NOTGIVEN = const('<not given>')


def regrouped(x, y):
    """call of the same function with the same values, given by position or by name"""
    if not (x.op == y.op == 'call' and x.args[0] == y.args[0] and len(x.args[1]) != len(y.args[1])):
        return False
    a, b = (list(t.args[1]) + [v for _, v in t.args[2]] for t in (x, y))
    return len(a) == len(b) and all(v in b for v in a)


def rowcount(t):
    """X.shape[0] is len(X)"""
    if t.op == 'idx' and is_const(t.args[1], 0) and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
        return mk('len', t.args[0].args[0])
    return t


def shape_relation(a, b):
    """'same', 'other' (certainly) or None for two shapes of arrays"""
    a, b = [[rowcount(x) for x in (s.args if s.op in ('tuple', 'list') else (s,))] for s in (a, b)]
    if any(x.op in ('shapeof', 'star') or x.op == 'attr' and x.args[1] == 'shape' for x in a + b):
        return None
    if len(a) != len(b):
        return 'other'

    def axis(t):
        if t.op == 'len':
            return t.args[0], 0
        if t.op == 'idx' and is_const(t.args[1]) and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
            return t.args[0].args[0], cval(t.args[1])
        return None, None
    r = 'same'
    for x, y in zip(a, b):
        if x is y:
            continue
        (p, i), (q, j) = axis(x), axis(y)
        if is_const(x) and is_const(y) or p is not None and p is q and i != j:
            return 'other'
        if p is None and q is None and 'poly' in (x.op, y.op):
            return 'other'
        r = None
    return r


def diff(a, b, out=None, depth=0):
    """minimal differing pairs of two terms"""
    out = [] if out is None else out
    if a is b:
        return out
    if any(x is a and y is b for x, y in out):
        return out
    if 'phi' in (a.op, b.op) and same_by_cases(a, b):
        return out
    if rowcount(a) is rowcount(b):
        return out
    if a.op == b.op == 'full' and a.args[0] is not b.args[0]:
        r = shape_relation(a.args[0], b.args[0])
        if r != 'same':
            out.append((a.args[0], b.args[0]) if r == 'other' else (mk('shapes', a.args[0]), b.args[0]))
        return diff(a.args[1], b.args[1], out, depth + 1)
    if 'full' in (a.op, b.op) and a.op != b.op:
        f, o = (a, b) if a.op == 'full' else (b, a)
        if o is f.args[1] or any(x.op == 'full' for x in subterms(o)):
            out.append((mk('shapes', a), b))
            return out
    if {a.op, b.op} == {'tuple', 'list'} and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            diff(x, y, out, depth + 1)
        return out
    if a.op == 'truthy' and a.args[0] is b or b.op == 'truthy' and b.args[0] is a:
        return out
    if is_const(a) and is_const(b) and isinstance(cval(a), (bool, int)) and isinstance(cval(b), (bool, int)) and cval(a) == cval(b):
        return out
    if a.op == b.op == 'poly':
        ma, mb = dict(a.args[0]), dict(b.args[0])
        ra = {m: c for m, c in ma.items() if mb.get(m) != c}
        rb = {m: c for m, c in mb.items() if ma.get(m) != c}
        if len(ra) == len(rb) == 1:
            (m1, c1), (m2, c2) = list(ra.items())[0], list(rb.items())[0]
            if c1 == c2:
                d1, d2 = dict(m1), dict(m2)
                f1 = [(x, e) for x, e in d1.items() if d2.get(x) != e]
                f2 = [(x, e) for x, e in d2.items() if d1.get(x) != e]
                if len(f1) == len(f2) == 1 and f1[0][1] == f2[0][1]:
                    return diff(f1[0][0], f2[0][0], out, depth + 1)
        out.append((a, b))
        return out
    if a.op == b.op and a.op in ('and', 'or', 'eq', 'mindom'):
        sa = [x for x in a.args if x not in b.args]
        sb = [x for x in b.args if x not in a.args]
        if len(sa) == len(sb) == 1:
            return diff(sa[0], sb[0], out, depth + 1)
        if sa or sb:
            out.append((a, b))
        return out
    if a.op == b.op == 'newtable':
        out.append((a, b))
        return out
    if a.op == b.op and a.op in ('loop', 'map', 'filtermap') and a.args[-1] is not b.args[-1]:
        # a loop over something else that does the same with it
        x, y = a.args[-1], b.args[-1]
        if x.op == y.op == 'len' and isinstance(x.args[0], T) and isinstance(y.args[0], T):
            ma, mb = ({s for s in subterms(t) if s.op == 'mu'} for t in (a, b))
            m = dict(zip(sorted(ma - mb, key=sortkey), sorted(mb - ma, key=sortkey))) if len(ma) == len(mb) else {}
            if substitute(substitute(a, m), {x.args[0]: y.args[0]}) is b:
                return diff(x.args[0], y.args[0], out, depth + 1)
            prs = diff(x.args[0], y.args[0])
            if prs and len(prs) < 4:
                # made from something else, in the sequence and inside of the loop
                sub = dict(prs)
                a2 = substitute(a, sub)
                ma = {s for s in subterms(a2) if s.op == 'mu'}
                m = dict(zip(sorted(ma - mb, key=sortkey), sorted(mb - ma, key=sortkey))) if len(ma) == len(mb) else {}
                if substitute(a2, m) is b:
                    out.extend(prs)
                    return out
        if a.op == 'loop':
            out.append((a, b))
            return out
    if a.op == b.op == 'call' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
        ka, kb = dict(a.args[2]), dict(b.args[2])
        if set(ka) != set(kb) and '**' not in ka and '**' not in kb:
            for x, y in zip(a.args[1], b.args[1]):
                diff(x, y, out, depth + 1)
            for k in sorted(set(ka) | set(kb)):
                diff(ka.get(k, NOTGIVEN), kb.get(k, NOTGIVEN), out, depth + 1)
            return out
    ha, ca = _split(a)
    hb, cb = _split(b)
    if ha is not None and ha == hb and len(ca) == len(cb) and ca:
        for x, y in zip(ca, cb):
            diff(x, y, out, depth + 1)
        return out
    out.append((a, b))
    return out


def loopy(t):
    return any(x.op in LOOPY for x in subterms(t))


def feasible(facts):
    """no two facts contradict each other"""
    val = {}
    for c, b in facts.items():
        if c.op == 'eq' and b:
            k = [x for x in c.args if is_const(x)]
            o = [x for x in c.args if not is_const(x)]
            if len(k) == 1 and len(o) == 1:
                if val.setdefault(o[0], k[0]) is not k[0]:
                    return False
    for c, b in facts.items():
        if c.op == 'and' and b and any(facts.get(x) is False or facts.get(not_(x)) is True for x in c.args):
            return False
        if c.op == 'or' and not b and any(facts.get(x) is True for x in c.args):
            return False
        if c.op == 'or' and b and all(facts.get(x) is False for x in c.args):
            return False
        if c.op in ('lt', 'le') and b:
            k = [j for j, x in enumerate(c.args) if x in val]
            if len(k) == 1:
                x, y = [val.get(z, z) for z in c.args]
                r = cmp_('Lt' if c.op == 'lt' else 'LtE', x, y)
                if r is FALSE:
                    return False
            r = facts.get(mk('lt', c.args[1], c.args[0]))
            if r:
                return False
    return True


def first_cond(*ts):
    for t in ts:
        best = None
        for y in subterms(t):
            if y.op == 'phi' and not any(z.op == 'phi' for z in subterms(y.args[0])) and \
                    not any(z.op in ('mu', 'it') for z in subterms(y.args[0])):
                if best is None or len(sortkey(y.args[0])) < len(sortkey(best)):
                    best = y.args[0]
        if best is not None:
            while best.op in ('and', 'or'):
                best = min(best.args, key=lambda z: len(sortkey(z)))
            return not_(best) if best.op in ('not', 'ne', 'notin', 'isnot') else best
    return None


class Context:
    """everything the two sides compute"""
    def __init__(self, code, spec):
        self.cterms, self.sterms = set(), set()
        for t in code:
            deque(subterms(t, self.cterms), 0)
        for t in spec:
            deque(subterms(t, self.sterms), 0)
        self.sh = set()
        self.cloops, self.sinner = set(), set()
        for t in spec:
            self.sh |= heads(t)


LOOPS = ('loop', 'map', 'after', 'app', 'lambda', 'closure')


def plain(t):
    """a parameter, a constant, or a fixed attribute of one"""
    while t.op in ('attr', 'col'):
        t = t.args[0]
    if t.op == 'full':
        # a constant array
        return is_const(t.args[1]) and not loopy(t.args[0])
    return t.op in ('sym', 'kw') or is_const(t) or t.op in ('list', 'tuple', 'dict') and not t.args


def loops_of(t):
    return [z for z in subterms(t) if z.op in LOOPS]


def compare(code, spec, facts=None, depth=0, dead=(), ctx=None):
    """-> ('equal', None) | ('differ', [(code, spec)]) | ('unknown', why); case split on the
    conditions of both sides"""
    if code is spec:
        return 'equal', None
    facts = facts or {}
    ctx = Context((code,), (spec,)) if ctx is None else ctx
    if facts and dead:
        # cases in which an error is raised have no value
        dead = [assume(c, facts) for c in dead]
        if any(c is TRUE for c in dead):
            return 'equal', None
        dead = [c for c in dead if c is not FALSE]
    if depth < 7:
        c = first_cond(code, spec)
        if c is not None:
            worst = ('equal', None)
            for b in (True, False):
                f2 = dict(facts)
                f2[c] = b
                if not feasible(f2):
                    continue
                r = compare(assume(code, f2), assume(spec, f2), f2, depth + 1, dead, ctx)
                if r[0] == 'unknown':
                    return r
                if r[0] == 'differ':
                    worst = r
            return worst
    return compare1(code, spec, ctx, facts)


BOOLS = ('and', 'or', 'not', 'ne', 'isnot', 'notin')


def atoms(t, out, weak):
    if t.op in ('and', 'or'):
        for x in t.args:
            atoms(x, out, weak)
    elif t.op in BOOLS and t.op != 'lt':
        atoms(not_(t), out, weak)
    elif t not in (TRUE, FALSE):
        if weak and t.op == 'le':
            t = mk('lt', t.args[1], t.args[0])
        out.add(t)


def evalb(t, val, weak):
    if t.op == 'and':
        return all(evalb(x, val, weak) for x in t.args)
    if t.op == 'or':
        return any(evalb(x, val, weak) for x in t.args)
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op in BOOLS:
        return not evalb(not_(t), val, weak)
    if weak and t.op == 'le':
        return not val[mk('lt', t.args[1], t.args[0])]
    return val[t]


def bool_equiv(x, y, weak=False):
    """propositional equivalence over the elementary conditions; weak: not (a < b) counts as b <= a"""
    if not any(t.op in ('and', 'or', 'not', 'le') for t in (x, y)):
        return False
    at = set()
    atoms(x, at, weak)
    atoms(y, at, weak)
    if len(at) > 8:
        return False
    at = list(at)
    for k in range(2 ** len(at)):
        val = {a: bool(k >> j & 1) for j, a in enumerate(at)}
        if evalb(x, val, weak) != evalb(y, val, weak):
            return False
    return True


def unit_conds(*ts):
    """conditions of phi terms left in a pair (those inside loops)"""
    best = None
    for t in ts:
        for y in subterms(t):
            if y.op == 'phi' and not any(z.op == 'phi' for z in subterms(y.args[0])):
                if best is None or len(sortkey(y.args[0])) < len(sortkey(best)):
                    best = y.args[0]
    if best is None:
        return None
    while best.op in ('and', 'or'):
        best = min(best.args, key=lambda z: len(sortkey(z)))
    return not_(best) if best.op in ('not', 'ne', 'notin', 'isnot') else best


def same_by_cases(x, y, depth=0):
    """the pair is equal for every combination of the conditions it contains"""
    if x is y or bool_equiv(x, y):
        return True
    c = unit_conds(x, y)
    if c is None or depth > 8:
        return False
    return all(same_by_cases(assume(x, {c: b}), assume(y, {c: b}), depth + 1) for b in (True, False))


def same_form(z, *others):
    """the other side has the same loop, with a body that differs in straight-line calculations only"""
    mz = {s for s in subterms(z) if s.op == 'mu'}
    for ts in others:
        for w in ts:
            if w.op != z.op or len(w.args) != len(z.args) or w.args[-1] is not z.args[-1]:
                continue
            mw = {s for s in subterms(w) if s.op == 'mu'}
            a, b = sorted(mw - mz, key=sortkey), sorted(mz - mw, key=sortkey)
            if len(a) != len(b):
                continue
            pairs = diff(substitute(w, dict(zip(a, b))), z)
            if not any(loops_of(x) or loops_of(y) for x, y in pairs):
                return True
    return False


def narrow_type(a):
    return len(a) == 2 and narrow(a[1])


def integer(t):
    """numbers that are integers anyway (or that may be)"""
    if t.op == 'call' and isinstance(t.args[0], str):
        return bare(t.args[0]) in ('argmin', 'argmax', 'argsort', 'searchsorted', 'digitize', 'arange', 'floor', 'ceil', 'round', 'rint', 'trunc',
                                   'random.randint', 'int', 'astype', 'unique', 'sign', 'zeros', 'ones', 'empty', 'random.choice', 'sum', 'isin')
    if t.op == 'poly':
        return any(integer(x) for x in children(t))
    if t.op == 'idx':
        return integer(t.args[0])
    if t.op == 'const':
        return isinstance(cval(t), (int, bool, str))
    return t.op in ('int', 'len', 'nonzero', 'arange', 'floordiv', 'range', 'eq', 'ne', 'lt', 'le', 'and', 'or', 'not', 'in', 'full', 'upd', 'loop', 'mu',
                    'hit', 'str', 'phi', 'list', 'tuple')


def compare1(code, spec, ctx, facts=None):
    pairs = diff(code, spec)
    pairs = [(x, y) for x, y in pairs if x.op == y.op == 'mu' or not same_by_cases(x, y)]
    if not pairs:
        return 'equal', None
    # loop-carried variables are compared through the loops that define them
    rest = [(x, y) for x, y in pairs if not (x.op == y.op == 'mu')]
    if pairs and not rest:
        if len({x for x, _ in pairs}) == len({y for _, y in pairs}) == len(set(pairs)):
            return 'equal', None
        return 'unknown', 'loop-carried variables only'
    pairs = rest
    here = None
    for x, y in pairs:
        if any(z.op == 'localfunc' for z in subterms(x)) or any(z.op == 'localfunc' for z in subterms(y)):
            return 'unknown', 'function made inside the function'
        if x.op == y.op == 'newtable':
            return 'unknown', 'number of tables made differs'
        if regrouped(x, y):
            return 'unknown', 'arguments given by position or by name'
        if bool_equiv(x, y, True):
            return 'unknown', 'equal except for undefined values (nan)'
        if x.op == 'cutoff' and x.args[0] is y:
            continue
        if x.op == 'sorted' and x.args[0] is y and any(z.op in ('set', 'setof') or z.op == 'call' and z.args[0] in ('builtins.set', 'builtins.frozenset')
                                                     for z in subterms(y)):
            return 'unknown', 'order of a set'
        if x.op == 'call' and x.args[0] == 'numpy.astype' and x.args[1] and x.args[1][0] is y and narrow_type(x.args[1]) and not integer(y):
            # digits are lost
            continue
        if y.op == 'loop' and y.args[0] is x:
            # never updated
            continue
        nh = known_heads(heads(x), ctx.sh)
        if nh:
            return 'unknown', f'operations {sorted(map(str, nh))[:4]} in {show(x, 120)} vs {show(y, 120)}'
        if loopy(x) or loopy(y):
            # a difference inside a loop body is definite if the loop itself is the same on both sides
            lx, ly = loops_of(x), loops_of(y)
            if here is None:
                # the terms of this case
                here = (set(), set())
                deque(subterms(code, here[0]), 0)
                deque(subterms(spec, here[1]), 0)
                # loops of the code that are not needed for a result; loops inside functions the specification calls
                if facts:
                    for j, ts in enumerate((ctx.cterms | ctx.cloops | ctx.sinner, ctx.sterms)):
                        here[j].update(assume(z, facts) for z in ts if z.op in LOOPS)
                else:
                    here[0].update(ctx.cloops | ctx.sinner)
            if (lx or ly) and not (all(z in ctx.sterms or z in here[1] or same_form(z, here[1], ctx.sterms) for z in lx) and
                                   (plain(x) or all(z in ctx.cterms or z in here[0] or same_form(z, here[0], ctx.cterms) for z in ly))):
                return 'unknown', f'different iteration: {show(x, 120)} vs {show(y, 120)}'
    return 'differ', pairs


# ------------------------------------------------------------ evaluation

class Spec:
    def __init__(self, node, mod, target, opts):
        self.node, self.mod, self.target, self.opts = node, mod, target, opts
        self.prop = opts.get('prop')


def load_specs(prog):
    """functions decorated with @spec('target', ...) in modules spec.*"""
    out = []
    for name, m in sorted(prog.modules.items()):
        if not name.startswith('spec'):
            continue
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                decs = [d for d in s.decorator_list if isinstance(d, ast.Call) and ast.unparse(d.func) == 'spec']
                if decs or getattr(s, '_specs', None):
                    if decs:
                        s._specs = decs
                        s.decorator_list = []
                    for d in s._specs:
                        opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                        out.append(Spec(s, m, ast.literal_eval(d.args[0]), opts))
    return out


def reads_of(prog, ci, fn, mod_cls, seen=None):
    """names of the attributes of self that a method may read, with the methods that it calls"""
    seen = set() if seen is None else seen
    out = set()
    if id(fn) in seen or isinstance(fn, ast.Lambda) or not fn.args.args:
        return out
    seen.add(id(fn))
    me = fn.args.args[0].arg
    for n in ast.walk(fn):
        m = None
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if isinstance(n.value, ast.Name) and n.value.id == me:
                out.add(n.attr)
                m = prog.find_method(ci, n.attr)
            elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
                mro = prog.mro(ci)
                i = mro.index(mod_cls) if mod_cls in mro else -1
                m = next(((k, k.methods[n.attr]) for k in mro[i + 1:] if n.attr in getattr(k, 'methods', {})), None)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'hasattr') and len(n.args) > 1 and \
                isinstance(n.args[0], ast.Name) and n.args[0].id == me and isinstance(n.args[1], ast.Constant):
            out.add(n.args[1].value)
        if m and isinstance(m[1], ast.FunctionDef):
            out |= reads_of(prog, ci, m[1], m[0], seen)
    return out


def settings_read(ip, f, fa):
    """values at the time of the call of the attributes that the method reads"""
    if not fa or not isinstance(fa[0], Obj) or fa[0].oid != 'self':
        return {}
    fn = f if isinstance(f, Func) else f.func
    if fn.cls is None:
        return {}
    out = {}
    for a in sorted(reads_of(ip.prog, fa[0].cls, fn.node, fn.cls)):
        v = ip.st.heap.get(ip.attrkey(fa[0], a))
        if v is not None:
            out['.' + a] = v
    return out


def opaque_hook(opaque, prog, forced=()):
    base = E.call_hook

    def hook(ip, f, args, kw, node):
        q = None
        if isinstance(f, Func):
            q, fa = f.qual, list(args)
        elif isinstance(f, Bound):
            q, fa = f.func.qual, [f.obj] + list(args)
        if q in forced and any(isinstance(x, T) and x.op == 'star' for x in fa):
            # a sequence of unknown length: arguments stay as they are
            ip.inlined.add(q)
            return ip.call_opaque(mk('func', q), fa, kw, node)
        if q in opaque and any(isinstance(x, T) and x.op == 'star' for x in fa):
            return base(ip, f, args, kw, node)
        if q in opaque and '**' not in kw:
            fn = (f if isinstance(f, Func) else f.func)
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if not a.vararg and len(fa) <= len(names):
                vals = dict(zip(names, fa))
                ok = True
                for k, v in kw.items():
                    if k not in names or k in vals:
                        ok = False
                    vals[k] = v
                dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
                for n in names:
                    if n not in vals:
                        if n in dfl:
                            vals[n] = ip.default_value(fn, n, dfl[n])
                        else:
                            ok = False
                if ok:
                    ip.inlined.add(q)
                    if q in forced and id(node) in ip.stmts:
                        # called for what it does: compared as a call
                        vals.update(settings_read(ip, f, fa))
                        return ip.call_opaque(mk('func', q), [], vals, node)
                    ta = tuple(ip.tm(vals[n]) for n in names)
                    return tcall(mk('func', q), ta, ())
        if q in forced:
            # cannot be reduced to a term: a call with named arguments, compared as such
            fn = (f if isinstance(f, Func) else f.func)
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if len(fa) <= len(names):
                vals = dict(zip(names, fa))
                if not set(vals) & set(kw):
                    vals.update(kw)
                    ip.inlined.add(q)
                    if id(node) in ip.stmts:
                        vals.update(settings_read(ip, f, fa))
                    return ip.call_opaque(mk('func', q), [], vals, node)
        return base(ip, f, args, kw, node)
    return hook


class Result:
    pass


def attrs_of(r):
    return {k[2]: r.ip.tm(v) for k, v in r.ip.st.heap.items() if k[0] == 'a' and k[1] == 'self'}


def colnames_of(r):
    if r.tab is None:
        return set()
    return {k[2] if k[0] == 'colref' else k[3] for k in r.ip.st.heap
            if k[0] in ('colref', 'col0') and k[1] == r.tab.tid}


def tables_of(v, name='return'):
    """new tables in a returned value"""
    if isinstance(v, Tab) and v.tid != 'P' and v.sel is None:
        return {name: v}
    if isinstance(v, Tup):
        out = {}
        for i, x in enumerate(v.items):
            out.update(tables_of(x, f'{name}[{i}]'))
        return out
    return {}


class TabContent:
    """columns, units and header entries of one table at the end of a function"""
    def __init__(self, ip, t):
        self.ip, self.t = ip, t
        self.raw = t.tid in ip.rawtabs
        heap = ip.st.heap
        self.names = {k[2] for k in heap if k[0] == 'colref' and k[1] == t.tid}
        self.units = {}
        for n in self.names:
            r = heap[('colref', t.tid, n)]
            if isinstance(r, Ref) and ('unit', r.loc) in heap:
                self.units[n] = ip.tm(heap[('unit', r.loc)])
        self.meta = {}
        m = heap.get(('tmeta', t.tid))
        self.metaraw = m is not None and not isinstance(m, Dct)
        if isinstance(m, Dct):
            d = heap.get(('d', m.oid))
            if d is not None:
                self.meta = {k: ip.tm(v) for k, v in d.items}
        o = d.open if isinstance(m, Dct) and d is not None else None
        self.more = o if o is not None and not (isinstance(o, T) and o.op == 'meta') else None
        self.base = heap.get(('metabase', t.tid))
        if self.base is None and isinstance(m, Dct) and d is not None and d.open is not None and t.tid in ip.localtabs:
            self.base = o if isinstance(o, T) and o.op != 'meta' else None
        self.cols = {}
        self.pres = {}

    def fill(self, names):
        for n in names:
            self.cols[n] = self.ip.tm(self.ip.getcol(self.t, n))
            self.pres[n] = self.ip.hascol(self.t, n)

    def maps(self):
        return (self.units, self.meta, self.cols, self.pres)


def cols_of(r, names):
    if r.tab is None:
        return {}
    return {n: r.ip.tm(r.ip.getcol(r.tab, n)) for n in sorted(names, key=sortkey)}


def excname(t):
    while t.op in ('call', 'new'):
        t = t.args[0]
        if isinstance(t, str):
            return t.split('.')[-1]
    return show(t, 60).split('.')[-1]


def raises_of(r):
    out = {}
    for ev in r.events:
        if ev.kind == 'raise':
            out.setdefault(excname(ev.exc), []).append((and_(*ev.pc, *ev.facts), ev))
        elif ev.kind == 'assert':
            out.setdefault('AssertionError', []).append((and_(*ev.pc, *ev.facts, not_(ev.cond)), ev))
    return out


class Effect:
    """something done for its effect on an object the function was given: a call, an assignment"""
    def __init__(self, kind, key, payload, cond, ev):
        self.kind, self.key, self.payload, self.cond, self.ev = kind, key, payload, cond, ev


def effects_of(r):
    out = []
    metas = {v.oid for k, v in r.ip.st.heap.items() if k[0] == 'tmeta' and isinstance(v, Dct)}
    for ev in r.events:
        k = None
        cond = rebuild(and_(*ev.pc, *ev.facts), lambda x: x.args[0] if x.op == 'truthy' else x)
        if ev.kind == 'opaque':
            c = ev.callee
            ta, recv = ev.targs, ()
            if isinstance(c, T) and c.op == 'attr':
                key, recv = str(c.args[1]), (c.args[0],)
            else:
                key = c if isinstance(c, str) else show(c, 200)
            if ev.stmt and key not in ('print', 'warnings.warn'):
                k = ('call', key, mk('tuple', *recv, *ta, *[mk('tuple', const(n), v) for n, v in ev.tkw]))
        elif ev.kind == 'attrset' and ev.obj.oid != 'self':
            k = ('attr', ev.name, mk('tuple', r.ip.tm(ev.obj), ev.value))
        elif ev.kind == 'attrsetT':
            k = ('attr', ev.name, mk('tuple', ev.base, ev.value))
        elif ev.kind == 'classset':
            k = ('attr', ev.name, mk('tuple', mk('glob', ev.cls.qual), ev.value))
        elif ev.kind == 'setattrdyn':
            k = ('setattr', '', mk('tuple', r.ip.tm(ev.obj), ev.name if isinstance(ev.name, T) else const(ev.name), ev.value))
        elif ev.kind == 'storeT':
            k = ('item', '', mk('tuple', ev.base, ev.index, ev.value))
        elif ev.kind == 'itemset':
            k = ('item', '', mk('tuple', r.ip.tm(ev.obj), ev.key, ev.value))
        elif ev.kind == 'dictset' and ev.obj.oid in metas and not is_const(ev.key) and ev.key.op not in ('any', 'arb'):
            k = ('key', '', mk('tuple', ev.key, ev.value))
        elif ev.kind == 'extsuper' and (ev.name not in ('__init__', '__new__', '__init_subclass__') or ev.name == '__init__' and (
                ev.targs or ev.tkw)):
            k = ('super', ev.name, mk('tuple', *ev.targs, *[mk('tuple', const(n), v) for n, v in ev.tkw]))
        elif ev.kind == 'mutate' and isinstance(ev.base, T):
            k = ('mutate', ev.meth, mk('tuple', ev.base, *ev.args))
        elif ev.kind == 'warn':
            k = ('warning', '', mk('tuple'))
        elif ev.kind == 'tabwrite':
            k = ('write', '', mk('tuple', ev.base, *ev.targs, *[mk('tuple', const(n), v) for n, v in ev.tkw]))
        elif ev.kind == 'tabrowset':
            k = ('row', '', mk('tuple', ev.index, ev.value))
        if k:
            out.append(Effect(*k, cond, ev))
    return out


def loses_copy(es, ec):
    """the specification passes on or changes a copy, the code the object itself (or a copy that shares its data)"""
    hs, hc = [[e.data.get('target_held'), *e.data.get('held', ())] for e in (es, ec)]
    return any((x, y) in (('own', 'shared'), ('own', 'shallow'), ('shallow', 'shared')) for x, y in zip(hs, hc))


def compare_effects(rc, rs, verdict, where0):
    groups = {}
    for j, lst in enumerate((rc.effects, rs.effects)):
        for e in lst:
            g = groups.setdefault((e.kind, e.key), ([], []))[j]
            for o in g:
                if o.payload is e.payload:
                    o.cond = or_(o.cond, e.cond)
                    break
            else:
                g.append(e)
    extra = [e for c, s in groups.values() for e in c if len(c) > len(s)]
    for (kind, key), (c, s) in groups.items():
        s = [e for e in s if not (e.kind == 'mutate' and e.payload.args[0].op in ('missing', 'undef'))]
        c = [e for e in c if not (e.kind == 'mutate' and e.payload.args[0].op in ('missing', 'undef'))]
        if not s:
            continue
        part = f'{kind} {key}'.strip()
        rest = []
        left = list(c)
        for e in s:
            m = [o for o in left if o.payload is e.payload]
            if m:
                left.remove(m[0])
                if kind == 'mutate' and loses_copy(e.ev, m[0].ev):
                    yield part, 'differ', 'keeps the object that was passed in, not a copy', m[0].ev.where
                if e.cond is m[0].cond:
                    yield part, 'equal', None, where0
                else:
                    yield verdict(f'condition of {part}', m[0].cond, e.cond, m[0].ev.where)
            else:
                rest.append(e)
        if not rest:
            continue
        if not left:
            for e in rest:
                yield part, 'unknown' if extra else 'differ', f'this is not done: {show(e.payload, 160)}', where0
        elif len(left) == len(rest):
            for o, e in zip(left, rest):
                yield verdict(part, mk('tuple', o.cond, o.payload), mk('tuple', e.cond, e.payload), o.ev.where)
        else:
            yield part, 'unknown', 'number of such statements differs', where0


def cells_of(r):
    """final content of the objects the function was given (or found in attributes of them) that it wrote to"""
    out = {}
    for k, v in r.ip.st.heap.items():
        if k[0] == 'init' and isinstance(v, T) and v is not k[1]:
            out[k[1]] = v
        elif k[0] == 'attr0' and isinstance(v, T) and k[2] not in r.attrs:
            d = r.ip.cell_default(k)
            if v is not d:
                out[d] = v
    for n, d in r.dicts.items():
        out[mk('sym', n)] = r.ip.tm(d)
    return out


def renumber_tables(res):
    """new tables are numbered by order of creation in one evaluation"""
    nums = set()
    for ts in all_terms(res):
        for x in subterms(ts):
            if x.op == 'newtable':
                nums.add(x)
    m = {x: mk('newtable', const(f'#{j}')) for j, x in enumerate(sorted(nums, key=lambda x: cval(x.args[0])))}
    if m:
        map_terms(res, lambda t: substitute(t, m))


def all_terms(res):
    ts = [res.value] if res.value is not None else []
    ts += list(res.attrs.values()) + list(res.cols.values())
    for tc in res.tabs.values():
        for m in tc.maps():
            ts += list(m.values())
    for lst in res.raises.values():
        ts += [c for c, _ in lst]
    for e in res.effects:
        ts += [e.cond, e.payload]
    ts += list(res.cells.values()) + list(res.cells)
    return ts


def map_terms(res, f):
    if res.value is not None:
        res.value = f(res.value)
    res.attrs = {k: f(v) for k, v in res.attrs.items()}
    res.cols = {f(k): f(v) for k, v in res.cols.items()}
    res.raises = {k: [(f(c), e) for c, e in v] for k, v in res.raises.items()}
    for e in res.effects:
        e.cond, e.payload = f(e.cond), f(e.payload)
    res.cells = {f(k): f(v) for k, v in res.cells.items()}
    res.loops, res.inner = {f(t) for t in res.loops}, {f(t) for t in res.inner}
    for tc in res.tabs.values():
        for m in tc.maps():
            m.update({k: f(v) for k, v in m.items()})


def canon_rand(res):
    """number the random draws of one evaluation by what is drawn and by order, not by call site"""
    mm = res.ip.mumap
    if mm:
        map_terms(res, lambda t: substitute(t, mm))
    seen = set()
    rs = set()
    for t in all_terms(res):
        for x in subterms(t, seen):
            if x.op == 'rand':
                rs.add(x)
    if not rs:
        return
    count, mapping = {}, {}
    for x in sorted(rs, key=lambda x: cval(x.args[0])):
        y = mk('rand', const(0), *[_sub(a, mapping) for a in x.args[1:]])
        n = count[y] = count.get(y, -1) + 1
        mapping[x] = mk('rand', const(-1 - n), *y.args[1:])
    map_terms(res, lambda t: substitute(t, mapping))


def _sub(a, mapping):
    if isinstance(a, T):
        return substitute(a, mapping)
    if isinstance(a, tuple):
        return tuple(_sub(x, mapping) for x in a)
    return a


def root_name(x):
    while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
        x = x.func if isinstance(x, ast.Call) else x.value
    return x.id if isinstance(x, ast.Name) else None


def constant_target(prog, target):
    """a class attribute or a module level name, as function that returns its value"""
    q, _, nm = target.rpartition('.')
    c = prog.classes.get(q)
    if c is not None:
        r = prog.find_attr(c, nm)
        if not r or r[1] is None:
            return None
        k, expr = r
        used = {x.id for x in ast.walk(expr) if isinstance(x, ast.Name)}
        body = [st for st in k.node.body if isinstance(st, ast.Assign) and used & {root_name(t) for t in st.targets} - {nm}]
        body, mod = body + [ast.copy_location(ast.Return(value=expr), expr)], k.mod
    elif q in prog.modules:
        mod = prog.modules[q]
        body = []
        for st in mod.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, (ast.AugAssign, ast.AnnAssign)) else []
            if nm in [root_name(t) for t in tg] or isinstance(st, ast.Expr) and root_name(st.value) == nm or \
                    isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                    nm in [root_name(a) for a in st.value.args] + [root_name(k.value) for k in st.value.keywords] or \
                    not tg and not isinstance(st, ast.Expr) and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(st)):
                body.append(st)
        if not body:
            return None
        body = body + [ast.copy_location(ast.Return(value=ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), body[0])), body[0])]
    else:
        return None
    fn = ast.FunctionDef(name='constant', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=body, decorator_list=[])
    ast.copy_location(fn, body[0])
    ast.fix_missing_locations(fn)
    return fn, mod, None


def check_spec(prog, sp, opaque, lemmas=None):
    """yield (part, verdict, detail, where)"""
    ent = prog.funcs.get(sp.target)
    if ent is None and not sp.node.args.args:
        ent = constant_target(prog, sp.target)
        if ent is not None:
            # statements at the top level may also change other objects: those have a specification of their own
            for r in check_entry(prog, sp, opaque, ent, lemmas):
                if r[0] in ('return', 'exists', 'signature'):
                    yield r
            return
    yield from check_entry(prog, sp, opaque, ent, lemmas)


def check_entry(prog, sp, opaque, ent, lemmas=None):
    where0 = None
    if ent is None:
        # method defined on a base class?
        cq, _, m = sp.target.rpartition('.')
        c = prog.classes.get(cq)
        fm = prog.find_method(c, m) if c else None
        if not fm or fm[1] is None:
            yield 'exists', 'unknown', f'{sp.target} not found', None
            return
        node, mod, ci = fm[1], fm[0].mod, fm[0]
        owner = c
    else:
        node, mod, ci = ent
        owner = ci
    for_cls = sp.opts.get('cls')
    if for_cls:
        owner = prog.cls(for_cls)
    names = [x.arg for x in sp.node.args.posonlyargs + sp.node.args.args]
    where0 = (mod.rel(), node.lineno, sp.target)
    if len(names) != len(node.args.posonlyargs + node.args.args):
        yield 'signature', 'unknown', 'number of parameters differs', where0
        return
    known = sp.opts.get('known', E.KNOWN)
    tab = sp.opts.get('tab', 'photons')

    rc = run_owner(prog, node, mod, ci, owner, sp.target, names, opaque, known, tab, sp.opts)
    rs = run_owner(prog, sp.node, sp.mod, owner, owner, sp.target, names, opaque, known, tab, sp.opts)
    if lemmas is not None:
        lemmas |= {q for q in rs.ip.inlined | rs.ip.opaque if q != sp.target and not q.startswith('spec')}
    colnames = colnames_of(rc) | colnames_of(rs)
    for nm, tc in rc.tabs.items():
        if nm in rs.tabs:
            ns = tc.names | rs.tabs[nm].names
            tc.fill(ns)
            rs.tabs[nm].fill(ns)
    finish_result(rc, colnames)
    finish_result(rs, colnames)
    if rs.err:
        raise RuntimeError(f'specification {sp.target}: {rs.err}')
    if rc.err == 'never returns':
        yield 'return', 'differ', 'the function never returns a value', where0
        return
    if rc.err:
        yield 'return', 'unknown', rc.err, where0
        return

    dead = [c for lst in list(rc.raises.values()) + list(rs.raises.values()) for c, _ in lst
            if not any(x.op in ('mu', 'it', 'inloop') for x in subterms(c))]
    dead = list(dict.fromkeys(dead))[:12]
    ctx = Context(all_terms(rc), all_terms(rs))
    # loops of the code whose result is not used, and loops of functions of the code base that the specification calls
    ctx.cloops, ctx.sinner = rc.loops - ctx.cterms, rs.inner - ctx.cterms
    # calls that may set attributes: those that are given the object and are not specified
    selfcalls = [e for e in rc.events if e.kind == 'setattrdyn' or e.kind == 'opaque' and any(
        isinstance(a, Obj) and a.oid == 'self' for a in list(e.args) + list(e.kw.values()))
        and not any(e2.kind == 'opaque' and e2.callee is e.callee for e2 in rs.events)]

    def verdict(part, a, b, where=None):
        v, d = compare(a, b, dead=dead, ctx=ctx)
        if v == 'differ':
            d = pairtext(d)
        return part, v, d, where or where0
    known_bad = {(e.func, e.why) for e in rs.events if e.kind == 'badcall'}
    for e in rc.events:
        if e.kind == 'badcall' and (e.func, e.why) not in known_bad:
            known_bad.add((e.func, e.why))
            yield f'call of {e.func}', 'differ', f'TypeError: {e.why}', e.where
    for e in rs.events:
        if e.kind in ('opaque', 'objcall') and 'own' in e.held:
            ce = [x for x in rc.events if x.kind == e.kind and (x.callee is e.callee or x.callee == e.callee and isinstance(x.callee, str))
                  and len(x.targs) == len(e.targs)]
            if ce and all(loses_copy(e, x) for x in ce):
                yield f'call of {e.callee if isinstance(e.callee, str) else show(e.callee, 60)}', 'differ', \
                    'gets the object that was passed in, not a copy', ce[0].where
    used = {c for c in (e.callee for e in rs.events if e.kind == 'opaque' and e.tabs) if isinstance(c, T)}
    for c in used:
        se, ce = ([e for e in r.events if e.kind == 'opaque' and e.tabs and e.callee is c] for r in (rs, rc))
        if ce and all(e.stmt for e in ce) and not any(e.stmt for e in se):
            yield f'call of {show(c, 60)}', 'differ', 'the photons that it returns are not used', ce[0].where
    if not sp.opts.get('noreturn'):
        for part, a, b in parts('return', rc.value, rs.value, sp.opts):
            yield verdict(part, a, b)
    ac, as_ = rc.attrs, rs.attrs
    for n, t in sorted(as_.items()):
        if n in ac:
            yield verdict(f'self.{n}', ac[n], t)
            if rs.obj is not None and rc.obj is not None and [
                    kept(r.ip, r.ip.st.heap.get(r.ip.attrkey(r.obj, n))) for r in (rc, rs)] == ['shared', 'own']:
                yield f'self.{n}', 'differ', 'is the object that was passed in, not a copy', where0
        else:
            cur = mk('attr', mk('sym', 'self'), n)
            if cur is not t:
                yield f'self.{n}', 'differ' if not selfcalls else 'unknown', \
                    'attribute is not set', where0
    if not sp.target.endswith('__init__') and not sp.opts.get('attrs'):
        for n in sorted(set(ac) - set(as_)):
            # settings of the object that the specification leaves alone
            if ac[n] is not mk('attr', mk('sym', 'self'), n) and owner is not None and attr_of_class(prog, owner, n, node):
                yield f'self.{n}', 'differ', f'is changed to {show(ac[n], 120)}', where0
    cc, cs = rc.cols, rs.cols
    for n in sorted(cs, key=show):
        if n in cc:
            yield verdict(f'column {show(n, 40)}', cc[n], cs[n])
    for nm, ts in rs.tabs.items():
        tc = rc.tabs.get(nm)
        if tc is None:
            if ts.names or ts.meta:
                yield f'{nm} table', 'unknown', 'table not recognised', where0
            continue
        for n in sorted(ts.names if nm != 'photons' else ts.units, key=sortkey):
            if nm != 'photons':
                if tc.raw or ts.raw:
                    yield f'{nm} column {show(n, 40)}', 'unknown', 'table content not understood', where0
                    continue
                yield verdict(f'{nm} column {show(n, 40)}', tc.cols[n], ts.cols[n])
            if n in ts.units:
                if n in tc.units:
                    yield verdict(f'{nm} unit {show(n, 40)}', tc.units[n], ts.units[n])
                elif nm == 'photons' or tc.cols[n] is ts.cols[n]:
                    yield f'{nm} unit {show(n, 40)}', 'differ', 'the column has no unit', where0
                else:
                    yield f'{nm} unit {show(n, 40)}', 'unknown', 'unit not understood', where0
        if ts.base is not None and not ts.raw:
            if tc.base is not None:
                if {tc.base.op, ts.base.op} & {'updated', 'both', 'dictfrom', 'meta', 'loopitems'} and tc.base is not ts.base:
                    yield f'{nm} header', 'unknown', 'header not understood', where0
                else:
                    yield verdict(f'{nm} header', tc.base, ts.base)
            elif tc.metaraw or tc.raw or tc.meta.keys() - ts.meta.keys():
                yield f'{nm} header', 'unknown', 'header not understood', where0
            else:
                yield f'{nm} header', 'differ', 'the header is not passed on', where0
        for n in sorted(ts.meta, key=sortkey):
            part = f'{nm} header {show(n, 40)}'
            if n not in tc.meta:
                yield part, 'unknown' if tc.metaraw or tc.raw or tc.more is not None and tc.more is not ts.more else 'differ', 'header entry is not set', where0
                continue
            a, b = tc.meta[n], ts.meta[n]
            if a.op == 'tuple' and b.op != 'tuple' and len(a.args) == 2:
                a = a.args[0]
            if not (tc.metaraw or tc.raw):
                # set on some paths only
                a, b = [rebuild(t, lambda x: const('<as before>') if x.op == 'missing' or x.op == 'kw' and x.args[0].op == 'meta' and
                                x.args[1] in (n, const(n)) else x) for t in (a, b)]
            yield verdict(part, a, b)
    for n in sorted(set(rs.cells) | set(rc.cells), key=sortkey):
        a, b = rc.cells.get(n, n), rs.cells.get(n, n)
        if n in rs.cells and n not in rc.cells and any(x not in rs.cells for x in rc.cells) and n not in ctx.cterms:
            yield f'content of {show(n, 60)}', 'unknown', 'object not recognised', where0
        elif n in rs.cells:
            yield verdict(f'content of {show(n, 60)}', a, b)
        elif compare(a, b, dead=dead, ctx=ctx)[0] == 'differ':
            yield f'content of {show(n, 60)}', 'differ', f'is changed to {show(a, 120)}', where0
    yield from compare_effects(rc, rs, verdict, where0)
    rz, rr = rs.raises, rc.raises
    for x, lst in sorted(rz.items()):
        # errors of functions of the code base that both sides call are theirs, not this function's
        taken = {c for c, ev in lst}
        there = {ev.stack[-1] for _, ev in rr.get(x, ()) if ev.stack}
        gone = [(c, ev) for c, ev in lst if ev.stack and not (ev.where[0].startswith('spec') or '/spec/' in ev.where[0])
                and ev.stack[-1] not in there and ev.stack[-1] != sp.target]
        if gone and not any(c in taken for c, _ in rr.get(x, ())) and len(rr.get(x, ())) + len(gone) <= len(lst):
            q = gone[0][1].stack[-1]
            yield f'raises {x} in {q}', 'differ', f'{q} is not called, so no such error is raised', where0
        lst = [(c, ev) for c, ev in lst if ev.where[0].startswith('spec') or '/spec/' in ev.where[0]]
        same = {c for c, _ in rr.get(x, []) if c in taken}
        for c, ev in lst:
            part = f'raises {x} if {show(c, 80)}'
            cand = rr.get(x, []) if c in same else [(c2, e2) for c2, e2 in rr.get(x, []) if c2 not in same]
            if any(c2 is c for c2, _ in cand):
                yield part, 'equal', None, where0
            elif not cand:
                opq = any(e.kind == 'opaque' for e in rc.events) and False
                yield part, 'unknown' if opq else 'differ', 'no such error is raised', where0
            else:
                best = None
                # a single combined condition covers several specified ones
                for c2, e2 in cand:
                    v, d = compare(c2, c, ctx=ctx)
                    if best is None or v == 'unknown':
                        best = (v, d, e2)
                if len(cand) != len(lst):
                    cov = covers([c2 for c2, _ in cand], c)
                    if cov:
                        yield part, 'equal', None, where0
                        continue
                v, d, e2 = best
                if v == 'differ':
                    d = pairtext(d)
                yield part, v, d, e2.where
    # errors for input that is valid
    allowed = {c for lst in rz.values() for c, _ in lst}
    for x, lst in sorted(rr.items()):
        for c, ev in lst:
            if c in allowed or covers(list(allowed), c) or x in ('NotImplementedError', 'AssertionError', 'StopIteration'):
                continue
            if len(lst) <= sum(1 for c2, _ in rz.get(x, ())):
                continue            # compared above
            if ev.stack and not (ev.stack[-1] == sp.target or ev.stack[-1].startswith(sp.target + '.')):
                continue            # an error of a function this one calls
            part = f'raises {x} for valid input'
            if loopy(c) or known_heads(heads(c), ctx.sh) or implied(c, allowed):
                yield part, 'unknown', show(c, 120), ev.where
            else:
                yield part, 'differ', f'if {show(c, 160)}', ev.where


def implied(c, allowed):
    return any(bool_equiv(or_(c, s), s) for s in list(allowed) + [or_(*allowed)]) if allowed else False


def attr_of_class(prog, ci, name, node):
    """the attribute is defined on the class or set in another method"""
    for c in prog.mro(ci):
        if name in c.attrs:
            return True
        for fn in c.methods.values():
            if fn is not node and any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and
                                      isinstance(x.value, ast.Name) and x.value.id == 'self' for x in ast.walk(fn)):
                return True
    return False


def pairtext(pairs):
    import hashlib
    full = ';'.join(sorted({f'{show(x, 10 ** 5)} | {show(y, 10 ** 5)}' for x, y in pairs}))
    return '; '.join(f'{show(x, 140)} where {show(y, 140)} is specified' for x, y in pairs[:2]) + \
        f' [{hashlib.sha1(full.encode()).hexdigest()[:8]}]'


def covers(conds, c):
    for c2 in conds:
        if c2.op == 'or' and c in c2.args:
            return True
        if c2 is TRUE:
            return True
    return False


def parts(name, a, b, opts):
    """split tuples / dicts so that each component is one obligation"""
    if b.op == 'tuple' and a.op == 'tuple' and len(a.args) == len(b.args):
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            yield from parts(f'{name}[{i}]', x, y, opts)
    elif a.op == b.op == 'dict' and [k for k, _ in a.args] == [k for k, _ in b.args]:
        for (k, x), (_, y) in zip(a.args, b.args):
            if k == '**':
                yield f'{name}[**]', x, y
            else:
                yield from parts(f'{name}[{show(k, 40)}]', x, y, opts)
    else:
        yield name, a, b


def run_owner(prog, node, mod, ci, owner, qual, names, opaque, known, tab, opts=None):
    opts = opts or {}
    h = E.hooks()
    if opts.get('sym'):
        base = h['attr']

        def attr_hook(ip, o, name):
            if name in opts['sym'] and o.oid == 'self':
                return Ref(('init', mk('attr', mk('sym', 'self'), name), ()))
            return base(ip, o, name)
        h['attr'] = attr_hook
    # constructors that the specification does not look into: the object is known by its arguments
    h['forced'] = set(opts.get('opaque', ())) - {qual}
    h['call'] = opaque_hook((set(opaque) - {qual}) | set(opts.get('opaque', ())), prog, set(opts.get('opaque', ())) - {qual})
    ip = Interp(prog, h)
    ip.openself = True
    f = Func(node, mod, ci, None, qual)
    ip.stack.append(Frame(f, None))
    r = Result()
    r.ip, r.tab, r.err, r.ret, r.obj, r.value = ip, None, None, None, None, None
    r.dicts = {}
    args, kw = [], {}
    a = node.args
    static = any(ast.unparse(d) == 'staticmethod' for d in node.decorator_list)
    for nm in names:
        if nm == 'self' and owner is not None and not static:
            r.obj = Obj('self', owner, mk('sym', 'self'))
            args.append(r.obj)
        elif nm == 'cls' and nm == names[0] and owner is not None:
            args.append(ClsV(owner))
        elif nm == tab:
            r.tab = ip.newtab('photons', known=list(known), n='P')
            args.append(r.tab)
        elif nm in opts.get('dicts', ()):
            r.dicts[nm] = ip.newdict((), mk('sym', nm))
            args.append(r.dicts[nm])
        else:
            args.append(Ref(('init', mk('sym', nm), ())))
    for x in a.kwonlyargs:
        kw[x.arg] = Ref(('init', mk('sym', x.arg), ()))
    if a.vararg:
        args.append(mk('star', mk('sym', 'varargs')))
    if a.kwarg:
        kw['**'] = mk('sym', 'kwargs')
    f.raw = True
    r.loops, r.inner = set(), set()

    def note_loop(t):
        r.loops.add(t)
        q = ip.stack[-1].func.qual if ip.stack else ''
        if q != qual and q in prog.funcs:
            r.inner.add(t)
    term.made.append(note_loop)
    try:
        r.ret = ip.call_func(f, args, kw)
        if opts.get('call'):
            # the function makes a function: look at what that one does
            args, kw = [], {}
            for nm in opts['call']:
                if nm == 'self':
                    r.obj = Obj('self', owner or prog.cls('marxs.optics.base.OpticalElement'), mk('sym', 'self'))
                    args.append(r.obj)
                elif nm == tab:
                    r.tab = ip.newtab('photons', known=list(known), n='P')
                    args.append(r.tab)
                elif nm.startswith('**'):
                    kw['**'] = mk('sym', nm[2:])
                elif nm.startswith('*'):
                    args.append(mk('star', mk('sym', nm[1:])))
                else:
                    args.append(Ref(('init', mk('sym', nm), ())))
            r.ret = ip.do_call(r.ret, args, kw, node)
        ip.shallow |= {t.tid for t in tables_of(r.ret).values()}
        r.value = ip.tm(r.ret)
    except Dead:
        r.err = 'never returns'
    except Budget:
        r.err = 'budget'
    finally:
        term.made.pop()
    r.events = ip.events
    r.tabs = {}
    if not r.err:
        r.tabs = {k: TabContent(ip, t) for k, t in tables_of(r.ret).items()}
        shown = {t.t.tid for t in r.tabs.values()}
        files = []
        for ev in r.events:
            # tables written to a file
            if ev.kind == 'tabwrite' and ev.tab.sel is None and ev.tab.tid != 'P' and ev.tab.tid not in shown:
                shown.add(ev.tab.tid)
                files.append(ev.tab)
        for i, t in enumerate(files):
            if t.tid in ip.rawtabs:
                continue
            ip.shallow.add(t.tid)
            r.tabs[f'file[{i}]'] = TabContent(ip, t)
        if r.tab is not None:
            r.tabs['photons'] = TabContent(ip, r.tab)
    return r


def finish_result(r, names):
    r.attrs, r.cols, r.raises = attrs_of(r), cols_of(r, names), raises_of(r)
    r.effects = effects_of(r)
    r.cells = cells_of(r)
    renumber_tables(r)
    canon_rand(r)
