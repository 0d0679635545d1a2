"""Value-flow abstract interpreter.

Evaluates functions of the analysed package symbolically over canonical terms
(`term.py`): every branch is followed, joined with a gated phi, calls into the
package are inlined through the concrete class' MRO, loops over unknown
iterables are summarised.  Nothing of the analysed package is imported or
executed and no path condition is ever solved.
"""
import ast
import hashlib
import zlib
from .term import *
from .term import call as tcall
from .program import ClassInfo


class V:
    pass


class Ref(V):
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc and o.path == self.path

    def __hash__(self):
        return hash((self.loc, self.path))

    def __repr__(self):
        return f'Ref({self.loc},{self.path})'


class Tup(V):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f'Tup{self.items}'


class Lst(V):
    def __init__(self, oid, prov=None):
        self.oid, self.prov = oid, prov


class Dct(V):
    def __init__(self, oid, prov=None):
        self.oid, self.prov = oid, prov


class DState:
    __slots__ = ('items', 'open')

    def __init__(self, items, open=None):
        self.items, self.open = tuple(items), open

    def get(self, k):
        for a, b in self.items:
            if a is k:
                return b
        return None

    def set(self, k, v):
        if self.get(k) is None:
            return DState(self.items + ((k, v),), self.open)
        return DState(tuple((a, v if a is k else b) for a, b in self.items), self.open)

    def drop(self, k):
        return DState(tuple((a, b) for a, b in self.items if a is not k), self.open)


class Obj(V):
    def __init__(self, oid, cls, term, known=False):
        self.oid, self.cls, self.term, self.known = oid, cls, term, known

    def __repr__(self):
        return f'Obj({self.cls.name},{self.term})'


class Tab(V):
    def __init__(self, tid, sel=None, parent=None, known=(), origin=None):
        self.tid, self.sel, self.parent, self.known = tid, sel, parent, frozenset(known)
        self.origin = origin

    def __repr__(self):
        return f'Tab({self.tid})'


class RowV(V):
    def __init__(self, tab, i):
        self.tab, self.i = tab, i


class Func(V):
    def __init__(self, node, mod, cls=None, env=None, qual=None):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env
        self.qual = qual or (f'{cls.qual}.{getattr(node, "name", "<lambda>")}' if cls else
                             f'{mod.name}.{getattr(node, "name", "<lambda>")}')

    def __repr__(self):
        return f'Func({self.qual})'


class Bound(V):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class ClsV(V):
    def __init__(self, ci):
        self.ci = ci


class ModV(V):
    def __init__(self, name):
        self.name = name


class ExtV(V):
    def __init__(self, dotted):
        self.dotted = dotted


class Super(V):
    def __init__(self, after, obj):
        self.after, self.obj = after, obj


class PhiV(V):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'PhiV({self.c},{self.a},{self.b})'


class Meth(V):
    """method of a value (array/table/dict/list/str)"""

    def __init__(self, base, name):
        self.base, self.name = base, name


class Partial(V):
    """decorated function: evaluate decorator result"""

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Dead(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ('heap', 'pc', 'facts')

    def __init__(self, heap=None, pc=(), facts=()):
        self.heap = {} if heap is None else heap
        self.pc, self.facts = pc, facts

    def clone(self):
        return State(dict(self.heap), self.pc, self.facts)


class Frame:
    n = 0

    def __init__(self, func, parent):
        Frame.n += 1
        self.fid = Frame.n
        self.func, self.parent = func, parent
        self.exits, self.loops, self.yields = [], [], None
        self.locals = set()
        self.selfobj = None


class Event:
    __slots__ = ('kind', 'data', 'where', 'pc', 'facts', 'stack')

    def __init__(self, kind, data, where, pc, facts, stack):
        self.kind, self.data, self.where, self.pc, self.facts, self.stack = kind, data, where, pc, facts, stack

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f'<{self.kind} {self.data} @{self.where}>'


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'sort', 'fill',
            'put', 'reverse', 'add', 'popitem', 'discard', 'resize', 'itemset', 'setflags'}
TABMUT = {'remove_rows', 'remove_row', 'add_row', 'insert_row', 'sort', 'reverse', 'remove_column', 'remove_columns',
          'keep_columns', 'rename_column', 'rename_columns', 'replace_column', 'add_columns', 'add_index'}
ROWOPS = {'remove_rows', 'remove_row', 'add_row', 'insert_row', 'sort', 'reverse'}
NPMETH = {'sum', 'mean', 'max', 'min', 'any', 'all', 'argmax', 'argmin', 'argsort', 'cumsum', 'nonzero', 'clip',
          'reshape', 'flatten', 'ravel', 'std', 'var', 'repeat', 'take', 'squeeze', 'swapaxes', 'prod', 'round',
          'searchsorted', 'cumprod', 'diagonal', 'trace', 'dot', 'transpose'}
NPALIAS = {'absolute': 'abs', 'fabs': 'abs', 'amax': 'max', 'amin': 'min', 'product': 'prod', 'sometrue': 'any',
           'alltrue': 'all', 'arctan2': 'arctan2', 'concat': 'concatenate', 'asarray': 'asarray',
           'isfinite': 'isfinite', 'identity': 'eye', 'bitwise_and': 'logical_and', 'bitwise_or': 'logical_or',
           'bitwise_not': 'logical_not', 'invert': 'logical_not', 'true_divide': 'divide', 'acos': 'arccos',
           'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2', 'row_stack': 'vstack'}
KINDS_SCALAR = ('const', 'eq', 'ne', 'lt', 'le', 'is', 'isnot', 'in', 'notin', 'isinstance', 'len', 'it', 'str',
                'glob', 'func', 'hasattr', 'new', 'tuple')
INPLACE_UFUNC = {'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub', 'divide': 'Div'}
EXC = {'Exception', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'AttributeError', 'RuntimeError',
       'NotImplementedError', 'AssertionError', 'StopIteration', 'ImportError', 'UserWarning', 'DeprecationWarning',
       'ZeroDivisionError', 'OSError', 'IOError', 'FileNotFoundError', 'ArithmeticError', 'LookupError', 'Warning',
       'BaseException', 'RuntimeWarning', 'NameError', 'OverflowError', 'ModuleNotFoundError'}


def ext_value(d):
    if d == 'numpy.newaxis':
        return NONE
    if d in ('numpy.nan', 'numpy.pi', 'numpy.inf', 'math.pi', 'math.nan', 'math.inf', 'scipy.pi'):
        return mk('glob', 'numpy' + d[d.index('.'):])
    return ExtV(d)


def names_column(it):
    """this term is the name of a column (not a row)"""
    return it.op in ('str', 'mu') or (it.op == 'call') and it.args[0] in ('str', 'builtins.str') or \
        it.op == 'attr' and ('col' in str(it.args[1]) or 'name' in str(it.args[1])) or \
        it.op == 'idx' and it.args[0].op == 'attr' and 'name' in str(it.args[0].args[1]) or \
        it.op == 'sym' and (it.args[0].startswith('col') or it.args[0].endswith(('col', 'colname', 'name'))) or \
        it.op in ('strsym', 'colname')


class Interp:
    def __init__(self, prog, hooks=None, max_depth=14, budget=400000):
        self.mumap = {}
        self.in_closure = 0
        self.prog = prog
        self.st = State()
        self.events = []
        self.hooks = hooks or {}
        self.attr_defaults = {}
        self.metadct, self.lazy = {}, {}       # headers of tables, content they have at first
        self.stack = []
        self.n = 0
        self.depth_it = 0
        self.max_depth, self.budget = max_depth, budget
        self.inlined = set()
        self.openself = False   # self may be of a derived class
        self.opaque = set()
        self.keysof = {}
        self.stmts = set()
        self.node = None
        self.silent = 0
        self.cellinfo = {}
        self.rawtabs = set()
        self.seltabs = {}
        self.trynum = {}
        self.localtabs = {}     # tables made here: term of what they were made from
        self.shallow = set()    # of these, the ones that are compared column by column
        self.ntabs = 0

    # ------------------------------------------------------------ utils
    def fresh(self):
        self.n += 1
        return self.n

    @property
    def fr(self):
        return self.stack[-1]

    def where(self, node=None):
        node = node or self.node
        if not self.stack:
            return ('?', 0, '?')
        f = self.fr.func
        return (f.mod.rel(), getattr(node, 'lineno', 0), f.qual)

    def event(self, kind, node=None, **data):
        if self.silent and kind != 'objcall':
            return
        self.events.append(Event(kind, data, self.where(node), self.st.pc, self.st.facts,
                                 tuple(f.func.qual for f in self.stack)))

    def newcell(self, t, info=None):
        loc = ('c', self.fresh())
        self.st.heap[loc] = t
        if info:
            self.cellinfo[loc] = info
        return Ref(loc)

    def newlist(self, items, prov=None):
        l = Lst(self.fresh(), prov)
        self.st.heap[('l', l.oid)] = tuple(items) if not isinstance(items, T) else items
        return l

    def newdict(self, items=(), open=None, prov=None):
        d = Dct(self.fresh(), prov)
        self.st.heap[('d', d.oid)] = DState(items, open)
        return d

    def newtab(self, name, known=(), origin=None, n=None):
        t = Tab(('t', self.fresh()) if n is None else n, known=known, origin=origin)
        self.st.heap[('tver', t.tid)] = name if isinstance(name, T) else mk('sym', name)
        return t

    def tabval(self, v):
        """content of a table that was made in this evaluation"""
        self.shallow.add(v.tid)
        try:
            h = self.st.heap
            cols, units = [], []
            for k, r in h.items():
                if k[0] == 'colref' and k[1] == v.tid:
                    pres = h.get(('colpres', v.tid, k[2]), TRUE)
                    if pres is FALSE:
                        continue
                    c = self.tm(r)
                    cols.append((k[2], c if pres is TRUE else phi(pres, c, NONE)))
                    if isinstance(r, Ref) and ('unit', r.loc) in h:
                        units.append((k[2], self.tm(h[('unit', r.loc)])))
            m = h.get(('tmeta', v.tid))
            m = self.tm(m) if m is not None else NONE
            so = lambda l: mk('dict', *sorted(l, key=lambda kx: sortkey(kx[0])))
            return mk('tabval', self.localtabs[v.tid], so(cols), so(units), m)
        finally:
            self.shallow.discard(v.tid)

    def maybe_array(self, t):
        return t.op not in KINDS_SCALAR

    def bind(self, v):
        if isinstance(v, T) and self.maybe_array(v):
            return self.newcell(v)
        return v

    # ------------------------------------------------------------ heap
    def cell(self, loc):
        v = self.st.heap.get(loc)
        if v is None:
            v = self.cell_default(loc)
        return v

    def cell_default(self, loc):
        if loc[0] == 'col0':
            return mk('col', loc[2], loc[3])
        if loc[0] == 'attr0':
            return mk('attr', loc[3], loc[2])
        if loc[0] == 'init':
            return loc[1]
        return mk('undef', str(loc))

    def deref(self, r):
        t = self.cell(r.loc)
        for p in r.path:
            t = idx(t, p)
        return t

    def put(self, r, i, v, node=None, aug=None):
        """write v (T) into view r at index i (None: whole view)"""
        path = r.path + ((i,) if i is not None else ())
        base = self.cell(r.loc)

        def go(b, p):
            if not p:
                return v
            return upd(b, p[0], go(idx(b, p[0]), p[1:]))
        new = go(base, path)
        self.event('store', node, loc=r.loc, path=path, old=base, new=new, value=v, aug=aug)
        self.st.heap[r.loc] = new

    def tm(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            return self.deref(v)
        if isinstance(v, Tup):
            return mk('tuple', *[self.tm(x) for x in v.items])
        if isinstance(v, Lst):
            s = self.lst(v)
            return s if isinstance(s, T) else mk('list', *[self.tm(x) for x in s])
        if isinstance(v, Dct):
            s = self.st.heap.get(('d', v.oid)) or DState(())
            items = tuple(sorted(((k, self.tm(x)) for k, x in s.items), key=lambda kx: sortkey(kx[0])))
            return mk('dict', *items) if s.open is None else mk('dict', *items, ('**', s.open))
        if isinstance(v, Obj):
            return v.term
        if isinstance(v, Tab):
            if v.sel is not None:
                return idx(self.tm(v.parent), v.sel)
            if v.tid in self.localtabs and v.tid not in self.shallow:
                return self.tabval(v)
            return mk('tab', self.tver(v))
        if isinstance(v, RowV):
            return idx(self.tm(v.tab), v.i)
        if isinstance(v, Func):
            if v.env is not None:
                t = self.closure_term(v)
                if t is not None:
                    return t
                if not isinstance(v.node, ast.Lambda):
                    return mk('localfunc', v.qual)
            return mk('func', v.qual if not isinstance(v.node, ast.Lambda) else
                      f'{v.qual}:{zlib.crc32(ast.dump(v.node).encode()) & 0xffffff}')
        if isinstance(v, Bound):
            return mk('attr', self.tm(v.obj), v.func.node.name)
        if isinstance(v, Meth):
            return mk('attr', self.tm(v.base), v.name)
        if isinstance(v, ClsV):
            return mk('glob', v.ci.qual)
        if isinstance(v, ModV):
            return mk('glob', v.name)
        if isinstance(v, ExtV):
            return mk('glob', v.dotted)
        if isinstance(v, PhiV):
            return phi(v.c, self.tm(v.a), self.tm(v.b))
        if isinstance(v, Super):
            return mk('super', v.after.qual if v.after else '?')
        if isinstance(v, Partial):
            return mk('partial', self.tm(v.f))
        if v is None:
            return NONE
        raise TypeError(type(v))

    def closure_term(self, f):
        """a function made inside the analysed function, as what it returns for symbolic arguments"""
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or self.in_closure > 1 or not self.stack:
            return None
        names = [x.arg for x in a.posonlyargs + a.args]
        keep, loops = self.st, self.fr.loops
        self.silent += 1
        self.in_closure += 1
        depth = len(self.stack)
        try:
            self.st = keep.clone()
            args = [Ref(('init', mk('larg', const(self.in_closure), const(i)), ())) for i in range(len(names))]
            body = self.tm(self.call_func(f, args, {}))
            return mk('closure', const(len(names)), body)
        except (Dead, Budget, RecursionError):
            return None
        finally:
            self.st = keep
            self.silent -= 1
            self.in_closure -= 1
            del self.stack[depth:]

    def lst(self, v):
        return self.st.heap.get(('l', v.oid), ())

    def items_of(self, v):
        """python list of known items or None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Lst):
            s = self.lst(v)
            if isinstance(s, T):
                return list(s.args) if s.op == 'list' else None
            return list(s)
        if isinstance(v, Dct):
            s = self.st.heap[('d', v.oid)]
            pr = [self.present(x) for _, x in s.items]
            if s.open is not None or any(p not in (TRUE, FALSE) for p in pr):
                return None
            return [k for (k, _), p in zip(s.items, pr) if p is TRUE]
        if isinstance(v, Ref):
            v = self.deref(v)
        if isinstance(v, T):
            if v.op in ('tuple', 'list'):
                return list(v.args)
            if is_const(v) and isinstance(cval(v), str):
                return [const(x) for x in cval(v)]
            if v.op == 'range' and all(is_num(x) for x in v.args):
                r = range(*[cval(x) for x in v.args])
                return [const(x) for x in r] if len(r) <= 64 else None
            if v.op == 'zip' or v.op == 'enumerate':
                return None
        return None

    def present(self, v):
        """condition under which a dictionary item exists"""
        if isinstance(v, Ref):
            v = self.deref(v)
        if isinstance(v, T) and v.op == 'missing':
            return FALSE
        if isinstance(v, PhiV):
            return phi(v.c, self.present(v.a), self.present(v.b))
        if isinstance(v, T) and v.op == 'phi':
            return phi(v.args[0], self.present(v.args[1]), self.present(v.args[2]))
        return TRUE

    def fill(self, v, default):
        """a dictionary item with `default` where it does not exist"""
        d = self.deref(v) if isinstance(v, Ref) else v
        if isinstance(d, T) and d.op == 'missing':
            return default
        if self.present(d) is TRUE:
            return v
        if isinstance(d, PhiV):
            return self.mergev(d.c, self.fill(d.a, default), self.fill(d.b, default))
        return self.mergev(d.args[0], self.fill(d.args[1], default), self.fill(d.args[2], default))

    def only(self, v):
        """a dictionary item, given that it exists"""
        d = self.deref(v) if isinstance(v, Ref) else v
        if self.present(d) in (TRUE, FALSE):
            return v
        c, a, b = (d.c, d.a, d.b) if isinstance(d, PhiV) else d.args
        if self.present(a) is FALSE:
            return self.only(b)
        if self.present(b) is FALSE:
            return self.only(a)
        return self.mergev(c, self.only(a), self.only(b))

    def dict_truth(self, v):
        s = self.st.heap[('d', v.oid)]
        c = or_(*[self.present(x) for _, x in s.items])
        if s.open is not None and c is not TRUE:
            gone = sorted([k for k, x in s.items], key=sortkey)
            c = or_(c, mk('truthy', mk('rest', s.open, tuple(gone)) if gone else s.open))
        return c

    # ------------------------------------------------------------ merging
    def mergev(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            return phi(c, a, b)
        if isinstance(a, Ref) and a == b:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid:
            return a
        if isinstance(a, Tab) and isinstance(b, Tab) and a.tid == b.tid and a.sel is b.sel:
            return a
        if isinstance(a, (Lst, Dct)) and type(a) is type(b) and a.oid == b.oid:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.mergev(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, ClsV) and isinstance(b, ClsV) and a.ci is b.ci:
            return a
        if isinstance(a, ExtV) and isinstance(b, ExtV) and a.dotted == b.dotted:
            return a
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.env is b.env:
            return a
        return PhiV(c, a, b)

    def merge(self, c, s1, s2):
        if s1 is None:
            if s2 is not None:
                s2.facts = s2.facts + (not_(c),)
            return s2
        if s2 is None:
            s1.facts = s1.facts + (c,)
            return s1
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for tid in {k[1] for h in (h1, h2) for k in h if k[0] == 'tver' and h1.get(k) is not h2.get(k)}:
            # columns that one branch writes before or after an unknown call changes the table
            for h in (h1, h2):
                v = h.get(('tver', tid))
                v = mk('sym', str(tid)) if v is None else v
                for k in [k for k in h if k[0] == 'col0' and k[1] == tid and k[2] is v]:
                    h.setdefault(('colref', tid, k[3]), Ref(k))
        for k in h1.keys() | h2.keys():
            a, b = h1.get(k), h2.get(k)
            if a is b:
                heap[k] = a
                continue
            kind = k[0]
            if kind == 'l':
                if a is None or b is None:
                    heap[k] = a if b is None else b
                elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                    heap[k] = tuple(self.mergev(c, x, y) for x, y in zip(a, b))
                elif a == b:
                    heap[k] = a
                else:
                    ta = a if isinstance(a, T) else mk('list', *[self._tm_in(x, s1) for x in a])
                    tb = b if isinstance(b, T) else mk('list', *[self._tm_in(x, s2) for x in b])
                    heap[k] = phi(c, ta, tb)
            elif kind == 'd':
                if a is None or b is None:
                    # created in one branch only: header of a table (which exists before), or a new object
                    i = self.lazy.get(k[1])
                    if i is not None:
                        a, b = (i if a is None else a), (i if b is None else b)
                if a is None or b is None:
                    heap[k] = a if b is None else b
                else:
                    keys = [x for x, _ in a.items] + [x for x, _ in b.items if a.get(x) is None]
                    miss = mk('missing')

                    def dget(d, x):
                        v = d.get(x)
                        if v is not None:
                            return v
                        if d.open is not None:
                            return phi(mk('in', x, d.open), mk('kw', d.open, x), miss)
                        return miss
                    heap[k] = DState([(x, self.mergev(c, dget(a, x), dget(b, x))) for x in keys],
                                     a.open if a.open is b.open else (a.open or b.open))
            elif kind == 'colref':
                va = a if a is not None else self._coldef(k, s1)
                vb = b if b is not None else self._coldef(k, s2)
                if isinstance(va, Ref) and va == vb:
                    heap[k] = va
                else:
                    loc = ('c', self.fresh())
                    ta = self._tm_in(va, s1)
                    tb = self._tm_in(vb, s2)
                    heap[loc] = phi(c, ta, tb)
                    heap[k] = Ref(loc)
                    ua, ub = [h.get(('unit', v.loc)) if isinstance(v, Ref) else None for h, v in ((s1.heap, va), (s2.heap, vb))]
                    if ua is not None or ub is not None:
                        heap[('unit', loc)] = phi(c, ua if ua is not None else NONE, ub if ub is not None else NONE)
            elif kind in ('v', 'a'):
                if a is None or b is None:
                    other = mk('undef', '')
                    if kind == 'a':
                        o = self.attr_defaults.get(k)
                        other = o if o is not None else mk('missing')
                    heap[k] = self.mergev(c, a if a is not None else other, b if b is not None else other)
                else:
                    heap[k] = self.mergev(c, a, b)
            elif kind == 'colpres':
                pa = a if a is not None else self._presdef(k, s1)
                pb = b if b is not None else self._presdef(k, s2)
                heap[k] = phi(c, pa, pb)
            else:
                if a is None:
                    a = self.cell_default(k) if kind in ('col0', 'attr0', 'init') else b
                if b is None:
                    b = self.cell_default(k) if kind in ('col0', 'attr0', 'init') else a
                if isinstance(a, T) and isinstance(b, T):
                    heap[k] = phi(c, a, b)
                else:
                    heap[k] = self.mergev(c, a, b)
        f2 = set(s2.facts)
        facts = tuple(f for f in s1.facts if f in f2)
        n = 0
        while n < min(len(s1.pc), len(s2.pc)) and s1.pc[n] is s2.pc[n]:
            n += 1
        return State(heap, s1.pc[:n], facts)


    def _tm_in(self, v, st):
        old, self.st = self.st, st
        try:
            return self.tm(v)
        finally:
            self.st = old

    def _coldef(self, k, st):
        old, self.st = self.st, st
        try:
            sel = self.seltabs.get(k[1])
            if sel is not None:
                v = self.getcol(sel, k[2])
                return self.newcell(self.tm(v)) if isinstance(v, T) else v
            return Ref(('col0', k[1], self.tver(k[1]), k[2]))
        finally:
            self.st = old

    def _presdef(self, k, st):
        sel = self.seltabs.get(k[1])
        if sel is not None:
            return self._presdef(('colpres', sel.parent.tid, k[2]), st)
        if ('colpres', k[1], k[2]) in st.heap:
            return st.heap['colpres', k[1], k[2]]
        return mk('hascol', st.heap.get(('tver', k[1])) or mk('sym', str(k[1])), k[2])

    def branch(self, c, f, g):
        """evaluate f under c, g under not c; join values and states"""
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        base = self.st
        outs = []
        for cond, fn in ((c, f), (not_(c), g)):
            self.st = base.clone()
            self.st.pc = base.pc + (cond,)
            self.st.facts = base.facts + (cond,)
            try:
                r = fn()
                outs.append((r, self.st))
            except Dead:
                outs.append((None, None))
        (r1, s1), (r2, s2) = outs
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            s2.pc = base.pc
            self.st = s2
            return r2
        if s2 is None:
            s1.pc = base.pc
            self.st = s1
            return r1
        if isinstance(r1, (Ref,)) and isinstance(r2, (T, Ref)) and r1 != r2 or \
                isinstance(r2, Ref) and isinstance(r1, T):
            if isinstance(r1, T) or isinstance(r2, T):
                r1, r2 = self._tm_in(r1, s1), self._tm_in(r2, s2)
        m = self.merge(c, s1, s2)
        m.pc = base.pc
        self.st = m
        return self.mergev(c, r1, r2)

    def known_truth(self, c):
        if is_const(c):
            return bool(cval(c))
        if c in self.st.facts:
            return True
        if not_(c) in self.st.facts:
            return False
        if c.op in ('and', 'or'):
            vals = [self.known_truth(x) for x in c.args]
            if c.op == 'and':
                if False in vals:
                    return False
                if all(v is True for v in vals):
                    return True
            else:
                if True in vals:
                    return True
                if all(v is False for v in vals):
                    return False
        if c.op == 'not':
            v = self.known_truth(c.args[0])
            return None if v is None else not v
        return None

    def truthy(self, v):
        """value -> condition term"""
        if isinstance(v, PhiV):
            return phi(v.c, self.truthy(v.a), self.truthy(v.b))
        if isinstance(v, Lst):
            s = self.lst(v)
            return const(bool(s)) if not isinstance(s, T) else mk('truthy', s)
        if isinstance(v, Tup):
            return const(bool(v.items))
        if isinstance(v, Dct):
            return self.dict_truth(v)
        if isinstance(v, Tab):
            return mk('truthy', mk('len', self.tabrows(v)))
        if not isinstance(v, (T, Ref)):
            return TRUE
        t = self.tm(v)
        if is_const(t):
            return const(bool(cval(t)))
        if t.op in ('list', 'tuple'):
            return const(bool(t.args))
        # len(x) == 0 / sum()==0 idioms
        if t.op in ('and', 'or', 'not', 'eq', 'ne', 'lt', 'le', 'is', 'isnot', 'in', 'notin', 'isinstance',
                    'hasattr', 'phi', 'hascol', 'callable', 'issubclass'):
            return t
        if t.op == 'call' and isinstance(t.args[0], str) and t.args[0] in (
                'numpy.any', 'numpy.all', 'numpy.isscalar', 'numpy.allclose', 'numpy.isclose', 'numpy.array_equal'):
            return t
        return mk('truthy', t)

    # ------------------------------------------------------------ tables
    def tver(self, t):
        tid = t.tid if isinstance(t, Tab) else t
        v = self.st.heap.get(('tver', tid))
        return v if v is not None else mk('sym', str(tid))

    def tabrows(self, t):
        if t.sel is not None:
            return idx(self.tabrows(t.parent), t.sel)
        v = self.st.heap.get(('rows', t.tid))
        return v if v is not None else mk('rows', str(t.tid) if not t.origin else t.origin)

    def getcol(self, t, name):
        """name: T"""
        if t.sel is not None:
            own = self.st.heap.get(('colref', t.tid, name))
            if own is not None:
                return own
            return idx(self.tm(self.getcol(t.parent, name)), t.sel)
        r = self.st.heap.get(('colref', t.tid, name))
        if r is None:
            self.event('colread0', tab=t, name=name, known=name in self.colknown(t))
            r = Ref(('col0', t.tid, self.tver(t), name))
        return r

    def colknown(self, t):
        return {const(x) for x in t.known}

    def hascol(self, t, name):
        if t.sel is not None:
            return self.hascol(t.parent, name)
        p = self.st.heap.get(('colpres', t.tid, name))
        if p is not None:
            return p
        if is_const(name) and cval(name) in t.known:
            return TRUE
        return mk('hascol', self.tver(t), name)

    def setcol(self, t, name, v, node=None):
        tv = self.tm(v)
        old = None
        if t.sel is None:
            old = self.tm(self.getcol(t, name)) if self.hascol(t, name) is not FALSE else None
        if old is not None and tv.op == 'where' and len(tv.args) == 3 and old in tv.args[1:]:
            # new values for the selected rows, the others as they were
            c, a, b = tv.args
            if a is old:
                c, a, b = not_(c), b, a
            while c.op == 'idx' and c.args[1].op == 'tuple' and c.args[1].args[0] in (FULL, mk('const', Ellipsis)):
                c = c.args[0]
            v = tv = upd(old, c, a if is_const(a) else idx(a, c))
        self.event('colset', node, tab=t, name=name, value=tv, old=old, had=self.hascol(t, name))
        c = self.newcell(tv)
        if isinstance(v, Ref) and ('unit', v.loc) in self.st.heap and not v.path:
            self.st.heap[('unit', c.loc)] = self.st.heap[('unit', v.loc)]
        elif old is not None and tv is not old:
            # a column calculated from the old one keeps its unit
            o = self.st.heap.get(('colref', t.tid, name))
            if isinstance(o, Ref) and ('unit', o.loc) in self.st.heap and any(x is old for x in subterms(tv)):
                self.st.heap[('unit', c.loc)] = self.st.heap[('unit', o.loc)]
        self.st.heap[('colref', t.tid, name)] = c
        self.st.heap[('colpres', t.tid, name)] = TRUE

    def havoc_tab(self, t, why):
        while t.sel is not None:
            t = t.parent
        for k in list(self.st.heap):
            if k[0] in ('colref',) and k[1] == t.tid:
                del self.st.heap[k]
        self.st.heap[('tver', t.tid)] = mk('after', why, self.tver(t))

    # ------------------------------------------------------------ attributes
    def attrkey(self, o, name):
        return ('a', o.oid, name)

    def getattr_obj(self, o, name, node=None):
        k = self.attrkey(o, name)
        v = self.st.heap.get(k)
        if v is not None:
            return v
        if name == '__class__':
            return ClsV(o.cls)
        if name == '__dict__':
            return mk('attr', o.term, '__dict__')
        if k in self.attr_defaults:
            return self.attr_defaults[k]
        h = self.hooks.get('attr')
        if h:
            r = h(self, o, name)
            if r is not None:
                self.attr_defaults[k] = r
                return r
        fm = self.prog.find_method(o.cls, name)
        assigned = name in self.prog.instance_assigned(o.cls)
        if fm and fm[1] is not None:
            kc, fn = fm
            if self.is_property(fn):
                return self.call_func(Func(fn, kc.mod, kc), [o], {}, node)
            return self.make_bound(o, fn, kc)
        if assigned and not (o.known and fm):
            loc = ('attr0', o.oid, name, o.term)
            return Ref(loc)
        if fm:
            kc = fm[0]
            e = kc.attrs.get(name)
            if not (self.openself and o.oid == 'self' and isinstance(e, (ast.List, ast.Dict, ast.Tuple)) and
                    not ast.unparse(e).strip('[](){}')):
                return self.class_attr(kc, name, o)
            # to be filled in by derived classes
            return Ref(('attr0', o.oid, name, o.term))
        self.event('noattr', node, obj=o, name=name)
        return Ref(('attr0', o.oid, name, o.term))

    def class_attr(self, kc, name, o=None):
        expr = kc.attrs.get(name)
        if expr is None:
            return mk('attr', mk('glob', kc.qual), name)
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == 'property':
            if o is not None and expr.args:
                f = self.eval_module_expr(expr.args[0], kc.mod, kc)
                return self.do_call(f, [o], {}, expr)
        key = ('ca', kc.qual, name)
        v = self.st.heap.get(key)
        if v is None:
            if isinstance(expr, ast.Name) and expr.id in kc.methods:
                fn = kc.methods[expr.id]
                return self.make_bound(o, fn, kc) if o is not None else Func(fn, kc.mod, kc)
            if isinstance(expr, (ast.Attribute, ast.Name)):
                e = self.prog.expr_to_entity(expr, kc.mod)
                if e[0] == 'class':
                    return ClsV(e[1])
            v = self.global_value(expr, kc.mod, ('classattr', kc.qual, name), kc)
            self.st.heap[key] = v
        if isinstance(v, Func) and o is not None:
            return Bound(o, v)
        return v

    def is_property(self, fn):
        for d in fn.decorator_list:
            if isinstance(d, ast.Name) and d.id in ('property', 'lazyproperty', 'cached_property'):
                return True
            if isinstance(d, ast.Attribute) and d.attr in ('getter', 'cached_property'):
                return True
        return False

    def make_bound(self, o, fn, kc):
        f = Func(fn, kc.mod, kc)
        for d in fn.decorator_list:
            if isinstance(d, ast.Name) and d.id == 'staticmethod':
                return f
            if isinstance(d, ast.Name) and d.id == 'classmethod':
                return Bound(ClsV(o.cls if isinstance(o, Obj) else kc), f)
        return Bound(o, f)

    # ------------------------------------------------------------ module level values
    def global_value(self, expr, mod, prov, cls=None):
        """value of a module or class level expression, keeping provenance"""
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Constant):
            return const(-expr.operand.value)
        if isinstance(expr, (ast.List, ast.Tuple)):
            items = [self.global_value(e, mod, prov + (i,), cls) for i, e in enumerate(expr.elts)]
            return self.newlist(items, prov) if isinstance(expr, ast.List) else Tup(items)
        if isinstance(expr, ast.Dict) and all(k is not None for k in expr.keys):
            its = []
            for k, e in zip(expr.keys, expr.values):
                kt = self.tm(self.global_value(k, mod, prov + ('k',), cls))
                its.append((kt, self.global_value(e, mod, prov + (kt,), cls)))
            return self.newdict(its, prov=prov)
        if isinstance(expr, (ast.Name, ast.Attribute)):
            try:
                return self.eval_module_expr(expr, mod, cls)
            except Exception:
                pass
        if isinstance(expr, ast.Lambda):
            return Func(expr, mod, None, None)
        if isinstance(expr, ast.BinOp):
            try:
                v = self.eval_module_expr(expr, mod, cls)
                if isinstance(v, T):
                    return v
            except Exception:
                pass
        # symbolic global object
        t = mk('glob', '.'.join(str(p) for p in prov[1:]))
        if isinstance(expr, ast.Call):
            r = self.prog.expr_to_entity(expr.func, mod) if isinstance(expr.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == 'class' and not self.prog.ext_bases(r[1]) and not isinstance(expr.func, ast.Call):
                return Obj(('g',) + tuple(str(p) for p in prov[1:]), r[1], t)
            if r and r[0] == 'ext' and r[1] in ('numpy.eye', 'numpy.identity'):
                t = tcall('numpy.eye', [const(a.value) for a in expr.args if isinstance(a, ast.Constant)])
                loc = ('init', t, prov)
                return Ref(loc)
        loc = ('init', t, prov)
        return Ref(loc)

    def eval_module_expr(self, expr, mod, cls=None):
        f = Func(ast.parse('lambda: 0', mode='eval').body, mod, cls, None, qual=mod.name + '.<module>')
        fr = Frame(f, None)
        self.stack.append(fr)
        try:
            return self.ev(expr)
        finally:
            self.stack.pop()

    def entity_value(self, e, name=None):
        if e[0] == 'module':
            return ModV(e[1])
        if e[0] == 'class':
            return ClsV(e[1])
        if e[0] == 'func':
            return self.decorated(Func(e[1], e[2]))
        if e[0] == 'ext':
            return ext_value(e[1])
        if e[0] == 'classattr':
            r = self.prog.find_method(e[1], e[2])
            if r and r[1] is not None:
                return Func(r[1], r[0].mod, r[0])
            if r:
                return self.class_attr(r[0], e[2])
            return mk('glob', f'{e[1].qual}.{e[2]}')
        if e[0] == 'assign':
            mod, nm, nodes = e[1], e[2], e[3]
            key = ('g', mod.name, nm)
            v = self.st.heap.get(key)
            if v is not None:
                return v
            s = nodes[0]
            if len(nodes) == 1 and isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                v = self.global_value(s.value, mod, ('global', mod.name, nm))
            else:
                v = Ref(('init', mk('glob', f'{mod.name}.{nm}'), ('global', mod.name, nm)))
            self.st.heap[key] = v
            return v
        if e[0] == 'assignattr':
            b = self.entity_value(e[1])
            return self.getattr(b, e[2])
        return mk('glob', str(e[1]))

    def decorated(self, f):
        node = f.node
        decs = getattr(node, 'decorator_list', [])
        v = f
        for d in reversed(decs):
            nm = d.func if isinstance(d, ast.Call) else d
            s = ast.unparse(nm).split('.')[-1]
            if s in ('property', 'staticmethod', 'classmethod', 'wraps', 'format_doc', 'abstractmethod', 'setter',
                     'lru_cache', 'cache', 'lazyproperty', 'getter', 'deleter', 'vectorize', 'contextmanager',
                     'validate_call', 'quantity_input', 'deprecated', 'docstring', 'njit', 'jit'):
                continue
            e = self.prog.expr_to_entity(nm, f.mod) if isinstance(nm, (ast.Name, ast.Attribute)) else ('missing', '')
            if e[0] != 'func' and isinstance(nm, ast.Name) and f.env is not None:
                dv = self.lookup(nm.id, f.env)
            elif e[0] == 'func':
                dv = Func(e[1], e[2])
            else:
                continue
            if dv is None:
                continue
            if isinstance(d, ast.Call):
                try:
                    dv = self.eval_module_expr(d, f.mod)
                except Exception:
                    continue
            try:
                r = self.do_call(dv, [v], {}, node)
            except (Dead,):
                continue
            if isinstance(r, (Func, Partial)):
                v = r
        return v

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            v = self.st.heap.get(('v', f.fid, name))
            if v is not None:
                return v
            f = f.func.env if isinstance(f.func, Func) else None
        return None

    def ev_name(self, node):
        v = self.lookup(node.id, self.fr)
        while isinstance(v, PhiV):
            k = self.known_truth(v.c)
            if k is None:
                break
            v = v.a if k else v.b
        if v is not None:
            return v
        mod = self.fr.func.mod
        e = self.prog.resolve_in(mod, node.id)
        if e[0] != 'missing':
            return self.entity_value(e)
        return ExtV('builtins.' + node.id)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        m = getattr(self, 'ev_' + type(n).__name__, None)
        old = self.node
        if hasattr(n, 'lineno'):
            self.node = n
        try:
            if m is None:
                return mk('expr', ast.dump(n)[:60])
            return m(n)
        finally:
            self.node = old

    def evt(self, n):
        return self.tm(self.ev(n))

    def ev_Constant(self, n):
        return const(n.value)

    def ev_Name(self, n):
        return self.ev_name(n)

    def ev_Tuple(self, n):
        return Tup(self.ev_seq(n.elts))

    def ev_List(self, n):
        return self.newlist(self.ev_seq(n.elts))

    def ev_Set(self, n):
        return mk('set', *sorted((self.evt(e) for e in n.elts), key=sortkey))

    def ev_seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                its = self.items_of(v)
                if its is None:
                    out.append(mk('star', self.tm(v)))
                else:
                    out.extend(its)
            else:
                out.append(self.bind(self.ev(e)))
        return out

    def ev_Dict(self, n):
        its, open_ = [], None
        d = DState(())
        for k, v in zip(n.keys, n.values):
            if k is None:
                dv = self.ev(v)
                if isinstance(dv, Dct):
                    s = self.st.heap[('d', dv.oid)]
                    for kk, vv in s.items:
                        d = d.set(kk, vv)
                    if s.open is not None:
                        d = DState(d.items, s.open)
                else:
                    d = DState(d.items, self.tm(dv))
            else:
                d = d.set(self.evt(k), self.bind(self.ev(v)))
        return self.newdict(d.items, d.open)

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(mk('fmt', self.evt(v.value)))
        if all(is_const(p) for p in parts):
            return const(''.join(cval(p) for p in parts))
        if all(is_const(p) or p.op == 'fmt' and is_const(p.args[0]) and not isinstance(v, ast.Constant) and
               getattr(v, 'format_spec', None) is None for p, v in zip(parts, n.values)):
            return const(''.join(str(cval(p if is_const(p) else p.args[0])) for p in parts))
        return mk('str', *parts)

    def ev_FormattedValue(self, n):
        return mk('fmt', self.evt(n.value))

    def ev_Lambda(self, n):
        return Func(n, self.fr.func.mod, self.fr.func.cls, self.fr)

    def ev_IfExp(self, n):
        c = self.cond(n.test)
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def ev_NamedExpr(self, n):
        v = self.bind(self.ev(n.value))
        self.setvar(n.target.id, v)
        return v

    def ev_Starred(self, n):
        return mk('star', self.evt(n.value))

    def ev_Await(self, n):
        return self.ev(n.value)

    def ev_Yield(self, n):
        v = self.ev(n.value) if n.value else NONE
        y = self.fr.yields
        if y is not None:
            self.list_append(y, v)
        self.event('yield', n, value=v)
        return NONE

    def ev_YieldFrom(self, n):
        v = self.ev(n.value)
        self.event('yield', n, value=v)
        return NONE

    def cond(self, n):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            base = self.st
            cs = []
            npc, nf = len(base.pc), base.facts
            try:
                for v in n.values:
                    c = self.cond(v)
                    k = self.known_truth(c)
                    if k is not None:
                        c = const(k)
                    cs.append(c)
                    if (c is FALSE and isand) or (c is TRUE and not isand):
                        break
                    x = c if isand else not_(c)
                    if not is_const(x):
                        self.st.pc = self.st.pc + (x,)
                        self.st.facts = self.st.facts + (x,)
            finally:
                if self.st is not None:
                    self.st.pc = self.st.pc[:npc]
                    self.st.facts = nf
            return and_(*cs) if isand else or_(*cs)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand))
        return self.truthy(self.ev(n))

    BOOLOPS = (ast.Compare,)

    def isbool(self, n):
        if isinstance(n, ast.Compare):
            return True
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return True
        if isinstance(n, ast.BoolOp):
            return all(self.isbool(v) for v in n.values)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            return n.func.id in ('isinstance', 'hasattr', 'callable', 'any', 'all', 'issubclass')
        if isinstance(n, ast.Constant):
            return isinstance(n.value, bool)
        return False

    def ev_BoolOp(self, n):
        if self.isbool(n):
            return self.cond(n)

        def go(vals):
            if len(vals) == 1:
                return self.ev(vals[0])
            a = self.ev(vals[0])
            c = self.truthy(a)
            if isinstance(n.op, ast.And):
                return self.branch(c, lambda: go(vals[1:]), lambda: a)
            return self.branch(c, lambda: a, lambda: go(vals[1:]))
        return go(n.values)

    def ev_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return self.cond(n)
        v = self.evt(n.operand)
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return not_(v) if not is_num(v) else const(~cval(v))

    def ev_Compare(self, n):
        left = self.ev(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b):
        if isinstance(a, PhiV):
            return phi(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if op in ('In', 'NotIn'):
            r = None
            ka = self.tm(a)
            if isinstance(b, Ref) and self.tm(b).op == 'keys':
                b = self.tm(b)
            while isinstance(b, T) and b.op == 'keys':
                d = self.keysof.get(b)
                b = d if d is not None and self.tm(d) is b.args[0] else b.args[0]
            if isinstance(b, PhiV):
                r = phi(b.c, self.compare('In', a, b.a), self.compare('In', a, b.b))
            elif isinstance(b, Dct):
                s = self.st.heap[('d', b.oid)]
                hit = s.get(ka)
                if hit is not None:
                    r = self.present(hit)
                elif s.open is None and is_const(ka) and all(is_const(k) for k, _ in s.items):
                    r = FALSE
                elif s.open is not None:
                    r = mk('in', ka, s.open)
            elif isinstance(b, ColNames) and isinstance(a, Dct):
                r = FALSE
            elif isinstance(b, Tab):
                r = self.hascol(b, ka)
            elif isinstance(b, T) and is_const(b) and isinstance(cval(b), str):
                if is_const(ka) and isinstance(cval(ka), str):
                    r = const(cval(ka) in cval(b))
            else:
                its = self.items_of(b)
                if its is not None and is_const(ka):
                    its = [self.tm(x) for x in its]
                    if ka in its:
                        r = TRUE
                    elif all(is_const(x) for x in its):
                        r = FALSE
                elif isinstance(b, ColNames):
                    r = self.hascol(b.tab, ka)
            if r is None:
                if isinstance(b, ColNames):
                    r = self.hascol(b.tab, ka)
                else:
                    r = mk('in', ka, self.tm(b))
            return r if op == 'In' else not_(r)
        if op in ('Is', 'IsNot'):
            na, nb = is_const(a, None) if isinstance(a, T) else False, is_const(b, None) if isinstance(b, T) else False
            if na or nb:
                o = b if na else a
                if isinstance(o, Ref):
                    o = self.tm(o)
                if isinstance(o, PhiV):
                    r = phi(o.c, self.compare('Is', o.a, NONE), self.compare('Is', o.b, NONE))
                elif not isinstance(o, T):
                    r = FALSE
                elif o.op == 'phi':
                    r = phi(o.args[0], self.compare('Is', o.args[1], NONE), self.compare('Is', o.args[2], NONE))
                elif is_const(o):
                    r = const(cval(o) is None)
                elif o.op in ('tuple', 'list', 'dict', 'poly', 'str', 'func', 'new', 'full', 'strsym', 'upd', 'dot') or \
                        o.op == 'glob' and str(o.args[0]).startswith('numpy.'):
                    r = FALSE
                else:
                    r = mk('is', o, NONE)
                return r if op == 'Is' else not_(r)
            if isinstance(a, (ClsV,)) and isinstance(b, ClsV):
                r = const(a.ci is b.ci)
                return r if op == 'Is' else not_(r)
        if isinstance(a, ClsV) and isinstance(b, ClsV) and op in ('Eq', 'NotEq'):
            r = const(a.ci is b.ci)
            return r if op == 'Eq' else not_(r)
        return cmp_(op, self.tm(a), self.tm(b))

    def ev_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, PhiV):
            return self.mergev(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
        if isinstance(b, PhiV):
            return self.mergev(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
        if op == 'Add' and isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
            x, y = self.items_of(a), self.items_of(b)
            if x is not None and y is not None:
                return self.newlist(x + y) if isinstance(a, Lst) else Tup(x + y)
        if op == 'Add' and (isinstance(a, Lst) or isinstance(b, Lst)):
            x = self.items_of(a)
            if x == []:
                return b if isinstance(b, Lst) else self.tm(b)
            y = self.items_of(b)
            if y == []:
                return self.tm(a)
            return mk('concat', self.tm(a), self.tm(b))
        if op == 'Mult' and isinstance(b, (Lst, Tup)) and not isinstance(a, (Lst, Tup)):
            at = self.tm(a)
            if at.op in ('len', 'shapeof') or is_num(at) and isinstance(cval(at), int):
                a, b = b, at
        if op == 'Mult' and isinstance(a, (Lst, Tup)):
            its = self.items_of(a)
            bt = self.tm(b)
            if its is not None and is_num(bt) and isinstance(cval(bt), int) and len(its) * cval(bt) < 64:
                its = its * cval(bt)
                return self.newlist(its) if isinstance(a, Lst) else Tup(its)
            return mk('repeat', self.tm(a), bt)
        a, b = self.tm(a), self.tm(b)
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if op == 'Add':
            if is_const(a) and is_const(b) and isinstance(cval(a), str) and isinstance(cval(b), str):
                return const(cval(a) + cval(b))
            if (is_const(a) and isinstance(cval(a), str)) or (is_const(b) and isinstance(cval(b), str)) \
                    or a.op == 'str' or b.op == 'str':
                return mk('str', *((a.args if a.op == 'str' else (a,)) + (b.args if b.op == 'str' else (b,))))
            if a.op == 'list' and b.op == 'list':
                return mk('list', *(a.args + b.args))
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            return div(a, b)
        if op == 'Pow':
            if is_num(b) and not (is_num(a) and cval(a) == 0):
                if is_num(a) and (float(cval(b)).is_integer() or cval(a) < 0):
                    try:
                        return const(cval(a) ** cval(b))
                    except Exception:
                        pass
                return powr(a, cval(b))
            return mk('pow', a, b)
        if op == 'MatMult':
            return self.matmul(a, b)
        if op == 'BitAnd':
            return and_(a, b)
        if op == 'BitOr':
            return or_(a, b)
        if op == 'FloorDiv':
            if is_num(a) and is_num(b) and cval(b):
                return const(cval(a) // cval(b))
            return mk('floordiv', a, b)
        if op == 'Mod':
            if is_const(a) and isinstance(cval(a), str):
                return mk('str', a, b)
            if is_num(a) and is_num(b) and cval(b):
                return const(cval(a) % cval(b))
            return mk('mod', a, b)
        return mk(op.lower(), a, b)

    def matmul(self, a, b):
        # (M . v^T)^T is the row-wise product
        return dot(a, b)

    # -------------------------------------------------- subscripts
    def ev_Slice(self, n):
        f = lambda x: self.evt(x) if x is not None else NONE
        return mk('slice', f(n.lower), f(n.upper), f(n.step))

    def ev_index(self, n):
        if isinstance(n, ast.Tuple):
            return mk('tuple', *[self.tm(self.ev(e)) for e in n.elts])
        v = self.ev(n)
        return v

    def isview(self, i):
        if i.op == 'slice':
            return True
        if is_const(i):
            return isinstance(cval(i), (int, str)) or cval(i) is Ellipsis or cval(i) is None
        if i.op == 'it':
            return True
        if i.op == 'tuple':
            return all(self.isview(x) for x in i.args)
        if i.op == 'poly':
            return all(x.op == 'it' for m, c in i.args[0] for x, e in m)
        return False

    def ev_Subscript(self, n):
        b = self.ev(n.value)
        i = self.ev_index(n.slice)
        return self.subscript(b, i, n)

    def subscript(self, b, i, node=None):
        if isinstance(b, PhiV):
            return self.branch(b.c, lambda: self.subscript(b.a, i, node), lambda: self.subscript(b.b, i, node))
        if isinstance(i, PhiV) and isinstance(b, (Tab, Dct)):
            return self.branch(i.c, lambda: self.subscript(b, i.a, node), lambda: self.subscript(b, i.b, node))
        it = self.tm(i)
        if isinstance(b, (Tab, Dct)) and it.op == 'phi':
            return self.branch(it.args[0], lambda: self.subscript(b, it.args[1], node),
                               lambda: self.subscript(b, it.args[2], node))
        if isinstance(b, Tab):
            return self.tab_sub(b, i, it, node)
        if isinstance(b, RowV):
            return idx(self.tm(self.getcol(b.tab, it)), b.i)
        if isinstance(b, ColNames):
            return idx(self.tm(b), it)
        if isinstance(b, (Tup, Lst)):
            its = self.items_of(b)
            if its is not None:
                if is_num(it) and isinstance(cval(it), int) and -len(its) <= cval(it) < len(its):
                    return its[cval(it)]
                if it.op == 'slice' and all(is_const(x) for x in it.args):
                    s = slice(*[cval(x) for x in it.args])
                    return Tup(its[s]) if isinstance(b, Tup) else self.newlist(its[s])
            return idx(self.tm(b), it)
        if isinstance(b, Dct):
            s = self.st.heap[('d', b.oid)]
            v = s.get(it)
            if v is not None:
                return v
            if s.open is not None:
                return mk('kw', s.open, it)
            if b.prov:
                return Ref(('init', mk('glob', '.'.join(map(str, b.prov[1:])) + f'[{it}]'), b.prov + (it,)))
            return idx(self.tm(b), it)
        if isinstance(b, Ref):
            if self.isview(it):
                return Ref(b.loc, b.path + (canon_index(it),) if it is not FULL else b.path)
            return idx(self.deref(b), it)
        if isinstance(b, Obj):
            fm = self.prog.find_method(b.cls, '__getitem__')
            if fm and fm[1] is not None:
                return self.do_call(self.make_bound(b, fm[1], fm[0]), [i], {}, node)
            k = ('item', b.oid, it)
            v = self.st.heap.get(k)
            if v is not None:
                return v
            if self.prog.ext_bases(b.cls) and 'Table' in ''.join(map(str, self.prog.ext_bases(b.cls))):
                if is_const(it) and isinstance(cval(it), str):
                    return Ref(('attr0', b.oid, f'[{cval(it)}]', b.term))
            return idx(b.term, it)
        if isinstance(b, T):
            return idx(b, it)
        return idx(self.tm(b), it)

    def tab_sub(self, b, i, it, node):
        if is_const(it) and isinstance(cval(it), str):
            return self.getcol(b, it)
        items = self.items_of(i) if not isinstance(i, T) else (list(i.args) if i.op in ('tuple', 'list') else None)
        if items and all(is_const(self.tm(x)) and isinstance(cval(self.tm(x)), str) for x in items):
            t = self.newtab(mk('cols', self.tm(b), it), origin='colsubset')
            for x in items:
                x = self.tm(x)
                self.st.heap[('colref', t.tid, x)] = self.newcell(self.tm(self.getcol(b, x)))
                self.st.heap[('colpres', t.tid, x)] = TRUE
            self.st.heap[('rows', t.tid)] = self.tabrows(b)
            return t
        if names_column(it):
            return self.getcol(b, it)
        if is_num(it):
            return RowV(b, it)
        if it.op == 'param' and self.hooks.get('colparam') and it in self.hooks['colparam']:
            return self.getcol(b, it)
        if self.st.heap.get(('colref', b.tid, it)) is not None:
            return self.getcol(b, it)
        t = Tab(('s', self.fresh()), sel=it, parent=b, known=b.known, origin=b.origin)
        self.seltabs[t.tid] = t
        return t

    def store_sub(self, b, i, v, node, aug=None):
        """b[i] = v"""
        if isinstance(b, PhiV):
            self.branch(b.c, lambda: self.store_sub(b.a, i, v, node, aug) or NONE,
                        lambda: self.store_sub(b.b, i, v, node, aug) or NONE)
            return
        it = self.tm(i)
        if isinstance(b, Tab):
            if it.op == 'phi':
                self.branch(it.args[0], lambda: self.store_sub(b, it.args[1], v, node, aug) or NONE,
                            lambda: self.store_sub(b, it.args[2], v, node, aug) or NONE)
                return
            if is_const(it) and isinstance(cval(it), str) or names_column(it) or it.op not in ('idx', 'slice', 'lt', 'le', 'and', 'or', 'not', 'eq', 'ne'):
                self.setcol(b, it, v, node)
            else:
                self.event('tabrowset', node, tab=b, index=it, value=self.tm(v))
            return
        if isinstance(b, RowV):
            col = self.getcol(b.tab, it)
            self.store_sub(col, b.i, v, node, aug)
            return
        if isinstance(b, Dct):
            self.event('dictset', node, obj=b, key=it, value=self.tm(v))
            self.st.heap[('d', b.oid)] = self.st.heap[('d', b.oid)].set(it, self.bind(v) if isinstance(v, T) else v)
            return
        if isinstance(b, Lst):
            its = self.items_of(b)
            self.event('listset', node, obj=b, key=it, value=self.tm(v))
            if its is not None and is_num(it) and -len(its) <= cval(it) < len(its):
                its[cval(it)] = v
                self.st.heap[('l', b.oid)] = tuple(its)
            else:
                self.st.heap[('l', b.oid)] = upd(self.tm(b), it, self.tm(v))
            return
        if isinstance(b, Ref):
            self.put(b, it, self.tm(v), node, aug)
            return
        if isinstance(b, Obj):
            fm = self.prog.find_method(b.cls, '__setitem__')
            self.event('itemset', node, obj=b, key=it, value=self.tm(v))
            if fm and fm[1] is not None:
                self.do_call(self.make_bound(b, fm[1], fm[0]), [i, v], {}, node)
                return
            self.st.heap[('item', b.oid, it)] = v
            return
        self.event('storeT', node, base=self.tm(b), index=it, value=self.tm(v))

    # -------------------------------------------------- attribute read
    def ev_Attribute(self, n):
        b = self.ev(n.value)
        return self.getattr(b, n.attr, n)

    def getattr(self, b, name, node=None):
        if isinstance(b, PhiV):
            return self.branch(b.c, lambda: self.getattr(b.a, name, node), lambda: self.getattr(b.b, name, node))
        if isinstance(b, Obj):
            return self.getattr_obj(b, name, node)
        if isinstance(b, ModV):
            e = self.prog.resolve_in(self.prog.modules[b.name], name)
            if e[0] == 'missing':
                return mk('glob', b.name + '.' + name)
            return self.entity_value(e)
        if isinstance(b, ExtV):
            d = b.dotted + '.' + name
            return ext_value(d)
        if isinstance(b, ClsV):
            if name == '__name__':
                return const(b.ci.name)
            r = self.prog.find_method(b.ci, name)
            if r and r[1] is not None:
                f = Func(r[1], r[0].mod, r[0])
                for d in r[1].decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'classmethod':
                        return Bound(b, f)
                return f
            if r:
                return self.class_attr(r[0], name)
            return mk('glob', f'{b.ci.qual}.{name}')
        if isinstance(b, Super):
            if b.after is not None and isinstance(b.obj, (Obj, ClsV)):
                cls = b.obj.cls if isinstance(b.obj, Obj) else b.obj.ci
                r = self.prog.find_method(cls, name, b.after)
                if r and r[1] is not None:
                    if self.is_property(r[1]):
                        return self.call_func(Func(r[1], r[0].mod, r[0]), [b.obj], {}, node)
                    return self.make_bound(b.obj, r[1], r[0])
                if r:
                    return self.class_attr(r[0], name, b.obj)
            return Meth(b, name)
        if isinstance(b, Tab):
            if name == 'colnames':
                return ColNames(b)
            if name == 'meta':
                root = b
                while root.sel is not None:
                    root = root.parent
                k = ('tmeta', root.tid)
                v = self.st.heap.get(k)
                if v is None:
                    # the same object whenever a path looks at it first
                    v = self.metadct.get(root.tid)
                    if v is None:
                        v = self.metadct[root.tid] = Dct(self.fresh(), ('meta', root.tid))
                        self.lazy[v.oid] = DState((), mk('meta', str(root.tid) if not root.origin else root.origin))
                    self.st.heap[('d', v.oid)] = self.lazy[v.oid]
                    self.st.heap[k] = v
                return v
            return Meth(b, name)
        if isinstance(b, (Dct, Lst, Tup, RowV, ColNames)):
            if isinstance(b, RowV) and name == 'meta':
                return self.getattr(b.tab, 'meta', node)
            return Meth(b, name)
        if isinstance(b, Ref):
            if name in ('data', 'quantity'):
                return b
            if name == 'T':
                return transpose(self.deref(b))
            t = self.deref(b)
            if name == 'value':
                return self.value_of(t)
            if name in ('shape', 'size', 'ndim', 'dtype', 'unit', 'info', 'mask', 'format'):
                if name == 'unit':
                    loc = ('unit', b.loc)
                    v = self.st.heap.get(loc)
                    if v is not None:
                        return v
                if name == 'ndim':
                    return mk('len', mk('attr', t, 'shape'))
                return mk('attr', t, name)
            return self.attr_of_value(b, t, name)
        if isinstance(b, T):
            if name == 'T':
                return transpose(b)
            if name in ('data', 'quantity') and b.op in ('idx', 'col', 'upd', 'poly', 'call', 'phi', 'dot'):
                return b
            if name == 'value':
                return self.value_of(b)
            if name == 'ndim':
                return mk('len', mk('attr', b, 'shape'))
            return self.attr_of_value(b, b, name)
        if isinstance(b, Bound) or isinstance(b, Func):
            return mk('attr', self.tm(b), name)
        return mk('attr', self.tm(b), name)

    def value_of(self, t):
        if t.op == 'to':
            return mk('value', t.args[0], t.args[1])
        return mk('value', t, NONE)

    METHODS = NPMETH | MUTATORS | {'copy', 'astype', 'to', 'to_value', 'format', 'keys', 'values', 'items', 'get',
                                   'tolist', 'decompose', 'join', 'split', 'lower', 'upper', 'strip', 'startswith',
                                   'endswith', 'replace', 'filled', 'view', 'conj', 'index', 'count', 'item',
                                   'write', 'rjust', 'ljust', 'sorted'}

    def attr_of_value(self, b, t, name):
        if name in self.METHODS:
            return Meth(b, name)
        if t.op == 'phi':
            r1 = self.attr_of_value(t.args[1], t.args[1], name)
            r2 = self.attr_of_value(t.args[2], t.args[2], name)
            if isinstance(r1, T) and isinstance(r2, T):
                return phi(t.args[0], r1, r2)
        if t.op == 'new' or t.op == 'sym':
            pass
        if isinstance(b, Ref):
            # attribute of an object held in a cell: a mutable place of its own
            loc = ('attr0', ('of', b.loc, b.path), name, t)
            v = self.st.heap.get(('a', ('of', b.loc, b.path), name))
            return v if v is not None else Ref(loc)
        return mk('attr', t, name)

    # -------------------------------------------------- assignment
    def setvar(self, name, v):
        self.st.heap[('v', self.fr.fid, name)] = v

    def assign(self, tgt, v, node):
        if isinstance(tgt, ast.Name):
            v = self.bind(v)
            if self.fr.func.node.__class__ is not ast.Lambda and tgt.id in getattr(self.fr, 'nonlocals', ()):
                f = self.fr.func.env
                while f is not None:
                    if ('v', f.fid, tgt.id) in self.st.heap:
                        self.st.heap[('v', f.fid, tgt.id)] = v
                        return
                    f = f.func.env
            self.setvar(tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            self.unpack(tgt.elts, v, node)
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(tgt.value)
            self.setattr(b, tgt.attr, v, node)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value)
            i = self.ev_index(tgt.slice)
            self.store_sub(b, i, v, node)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, node)

    def unpack(self, elts, v, node):
        if isinstance(v, PhiV):
            a, b = self.items_of(v.a), self.items_of(v.b)
            if a is not None and b is not None and len(a) == len(b):
                v = Tup([self.mergev(v.c, x, y) for x, y in zip(a, b)])
        its = self.items_of(v)
        if its is not None and len(its) == len(elts) and not any(isinstance(e, ast.Starred) for e in elts):
            for e, x in zip(elts, its):
                self.assign(e, x, node)
            return
        t = self.tm(v)
        k = 0
        for e in elts:
            if isinstance(e, ast.Starred):
                self.assign(e.value, mk('rest', t, const(k)), node)
            else:
                if isinstance(v, Ref):
                    self.assign(e, Ref(v.loc, v.path + (const(k),)), node)
                else:
                    self.assign(e, idx(t, const(k)), node)
            k += 1

    def setattr(self, b, name, v, node):
        if isinstance(b, PhiV):
            self.branch(b.c, lambda: self.setattr(b.a, name, v, node) or NONE,
                        lambda: self.setattr(b.b, name, v, node) or NONE)
            return
        if isinstance(b, Obj):
            for k in self.prog.mro(b.cls):
                if name in k.setters:
                    self.call_func(Func(k.setters[name], k.mod, k), [b, v], {}, node)
                    return
            v = self.bind(v)
            self.event('attrset', node, obj=b, name=name, value=self.tm(v), val=v)
            self.st.heap[self.attrkey(b, name)] = v
            return
        if isinstance(b, ClsV):
            self.event('classset', node, cls=b.ci, name=name, value=self.tm(v))
            self.st.heap[('ca', b.ci.qual, name)] = v
            return
        if isinstance(b, Tab):
            if name == 'meta':
                self.event('metaset', node, tab=b, value=self.tm(v))
                if isinstance(v, Dct):
                    self.st.heap[('tmeta', b.tid)] = v
                    self.st.heap.pop(('metabase', b.tid), None)
                else:
                    self.st.heap.pop(('tmeta', b.tid), None)
                    self.st.heap[('metabase', b.tid)] = self.tm(v)
            return
        if isinstance(b, Ref):
            if name == 'unit':
                self.st.heap[('unit', b.loc)] = self.tm(v)
                self.event('unitset', node, loc=b.loc, value=self.tm(v))
                return
            self.event('attrsetT', node, base=self.tm(b), loc=b.loc, path=b.path, name=name, value=self.tm(v))
            self.st.heap[('a', ('of', b.loc, b.path), name)] = self.bind(v)
            return
        self.event('attrsetT', node, base=self.tm(b), loc=None, path=(), name=name, value=self.tm(v))

    # -------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        old = self.node
        self.node = s
        try:
            getattr(self, 'st_' + type(s).__name__, self.st_other)(s)
        finally:
            self.node = old

    def st_other(self, s):
        raise Budget()        # a statement that is not understood: nothing can be said

    def st_Pass(self, s):
        pass

    st_TypeAlias = st_Pass

    def st_AsyncFunctionDef(self, s):
        self.st_FunctionDef(s)

    def st_Expr(self, s):
        self.stmts.add(id(s.value))
        self.ev(s.value)

    def st_Assign(self, s):
        v = self.ev(s.value)
        v = self.bind(v)
        for t in s.targets:
            self.assign(t, v, s)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def st_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t)
            r = self.ev(s.value)
            self.aug_value(cur, op, r, s, lambda v: self.assign(t, v, s))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            cur = self.getattr(b, t.attr, t)
            r = self.ev(s.value)
            self.aug_value(cur, op, r, s, lambda v: self.setattr(b, t.attr, v, s))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.ev_index(t.slice)
            cur = self.subscript(b, i, t)
            r = self.ev(s.value)
            if isinstance(b, Ref) or isinstance(b, PhiV) or isinstance(b, RowV):
                self.store_sub(b, i, self.binop(op, self.tm(cur), r), s, aug=op)
            else:
                self.aug_value(cur, op, r, s, lambda v: self.store_sub(b, i, v, s, aug=op))

    def aug_value(self, cur, op, r, s, setter):
        if isinstance(cur, Lst) and op == 'Add':
            x, y = self.items_of(cur), self.items_of(r)
            self.event('listmut', s, obj=cur, meth='extend')
            if x is not None and y is not None:
                self.st.heap[('l', cur.oid)] = tuple(x + y)
            else:
                self.st.heap[('l', cur.oid)] = mk('concat', self.tm(cur), self.tm(r))
            return
        if isinstance(cur, Ref) and self.maybe_array(self.deref(cur)) and \
                not (cur.path and is_num(cur.path[-1]) and False):
            rt = self.tm(r)
            self.put(cur, None, self.arith(op, self.deref(cur), rt), s, aug=op)
            return
        setter(self.binop(op, cur, r))

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.tm(self.ev_index(t.slice))
                if isinstance(b, Dct):
                    self.event('dictset', s, obj=b, key=i, value=mk('deleted'))
                    self.st.heap[('d', b.oid)] = self.st.heap[('d', b.oid)].drop(i)
                elif isinstance(b, Tab):
                    self.event('tabstruct', s, tab=b, meth='__delitem__', args=(i,))
                else:
                    self.event('mutate', s, target=b, meth='__delitem__', args=(i,), base=self.tm(b))
            elif isinstance(t, ast.Name):
                self.st.heap.pop(('v', self.fr.fid, t.id), None)

    def st_FunctionDef(self, s):
        f = Func(s, self.fr.func.mod, self.fr.func.cls, self.fr,
                 qual=self.fr.func.qual + '.' + s.name)
        self.setvar(s.name, f)
        if s.decorator_list:
            self.setvar(s.name, self.decorated(f))

    def st_ClassDef(self, s):
        self.setvar(s.name, mk('localclass', s.name))

    def st_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            d = a.name if a.asname else a.name.split('.')[0]
            self.setvar(nm, self.entity_value(self.prog.resolve(d)))

    def st_ImportFrom(self, s):
        base = self.prog.absname(self.fr.func.mod, s)
        for a in s.names:
            if a.name != '*':
                self.setvar(a.asname or a.name, self.entity_value(self.prog.resolve(base + '.' + a.name)))

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.fr.exits.append((v, self.st, s))
        self.event('return', s, value=v)
        raise Dead()

    def st_Raise(self, s):
        e = self.ev(s.exc) if s.exc is not None else NONE
        self.event('raise', s, exc=self.tm(e))
        raise Dead()

    def st_Assert(self, s):
        c = self.cond(s.test)
        self.event('assert', s, cond=c)
        if not is_const(c):
            self.st.facts = self.st.facts + (c,)

    def st_Global(self, s):
        pass

    def st_Nonlocal(self, s):
        self.fr.nonlocals = getattr(self.fr, 'nonlocals', set()) | set(s.names)

    def st_If(self, s):
        c = self.cond(s.test)
        k = self.known_truth(c)
        if k is not None:
            self.exec_block(s.body if k else s.orelse)
            return
        self.branch(c, lambda: self.exec_block(s.body) or NONE, lambda: self.exec_block(s.orelse) or NONE)

    def st_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if isinstance(v, (Obj, Tab)) else mk('enter', self.tm(v)), s)
        self.exec_block(s.body)

    def st_Try(self, s):
        base = self.st.clone()
        # the condition "something in the body raises one of these", numbered in order of execution
        types = tuple(sorted(ast.unparse(h.type).split('.')[-1] if h.type else '' for h in s.handlers))
        types = ','.join(types)
        num = self.trynum.get(id(s))
        if num is None:
            num = self.trynum[id(s)] = (types, sum(k[0] == types for k in self.trynum.values()))
        c = mk('raised', types, '', num[1])

        def body():
            self.exec_block(s.body)
            self.exec_block(s.orelse)
            return NONE

        if not s.handlers:
            try:
                body()
            except Dead:
                if s.finalbody:
                    save = self.st
                    try:
                        self.exec_block(s.finalbody)
                    finally:
                        pass
                raise
            self.exec_block(s.finalbody)
            return

        def handlers(hs):
            if not hs:
                raise Dead()
            h = hs[0]

            def this():
                if h.name:
                    self.setvar(h.name, mk('exc', c))
                self.exec_block(h.body)
                return NONE
            if len(hs) == 1:
                return this()
            hc = mk('raisedtype', c, ast.unparse(h.type).split('.')[-1] if h.type else '')
            return self.branch(hc, this, lambda: handlers(hs[1:]))
        self.branch(c, lambda: handlers(s.handlers), body)
        self.exec_block(s.finalbody)

    def st_Break(self, s):
        if self.fr.loops:
            self.fr.loops[-1]['break'].append(self.st)
        raise Dead()

    def st_Continue(self, s):
        if self.fr.loops:
            self.fr.loops[-1]['cont'].append(self.st)
        raise Dead()

    # loops -------------------------------------------------------
    def merge_exits(self, sts, npc):
        """join states in order; each carries its own path condition suffix"""
        out = sts[-1]
        for s in reversed(sts[:-1]):
            c = and_(*s.pc[npc:]) if len(s.pc) > npc else TRUE
            if c is TRUE:
                out = s
            else:
                out = self.merge(c, s, out)
        out.pc = out.pc[:npc]
        return out

    def run_body(self, body, npc):
        """one iteration; returns True if falls through; leaves break states in loop record"""
        rec = self.fr.loops[-1]
        rec['cont'] = []
        base_pc = self.st.pc
        sts = []
        try:
            self.exec_block(body)
            sts = [self.st]
        except Dead:
            pass
        sts = rec['cont'] + sts
        if not sts:
            return False
        self.st = self.merge_exits(sts, len(base_pc))
        return True

    def iter_spec(self, v):
        """-> (known list | None, maker(itvar)->value, domain term)"""
        if isinstance(v, IterV):
            if v.kind == 'enumerate':
                start = v.extra
                k, mkf, dom = self.iter_spec(v.parts[0])
                if k is not None:
                    return [Tup([add(const(i), start), x]) for i, x in enumerate(k)], None, None
                return None, (lambda it: Tup([add(it, start), mkf(it)])), dom
            if v.kind == 'zip':
                specs = [self.iter_spec(p) for p in v.parts]
                if specs and all(k is not None for k, _, _ in specs):
                    return [Tup(x) for x in zip(*[k for k, _, _ in specs])], None, None
                # a known-length part fixes nothing else
                fs = []
                for p, (k, m, d) in zip(v.parts, specs):
                    if k is not None:
                        t = self.tm(p)
                        fs.append(lambda it, t=t: idx(t, it))
                    else:
                        fs.append(m)
                doms = tuple(sorted({d if d is not None else mk('len', self.tm(p)) for p, (k, m, d) in
                                     zip(v.parts, specs)}, key=sortkey))
                known = [k for k, _, _ in specs if k is not None]
                if known and min(map(len, known)) <= 16 and all(k is not None or True for k, _, _ in specs):
                    n = min(map(len, known))
                    return [Tup([f(const(i)) if specs[j][0] is None else specs[j][0][i] for j, f in enumerate(fs)])
                            for i in range(n)], None, None
                return None, (lambda it: Tup([f(it) for f in fs])), doms[0] if len(doms) == 1 else mk('mindom', *doms)
            if v.kind == 'items':
                d = v.parts[0]
                if isinstance(d, Dct):
                    s = self.st.heap[('d', d.oid)]
                    if s.open is None:
                        return [Tup([k, x]) for k, x in s.items], None, None
                t = self.tm(d)
                return None, (lambda it: Tup([mk('key', t, it), mk('val', t, it)])), mk('len', t)
            if v.kind == 'reversed':
                k, m, d = self.iter_spec(v.parts[0])
                if k is not None:
                    return list(reversed(k)), None, None
                return None, (lambda it: m(sub(sub(d, it), const(1)))), d
        if isinstance(v, Tab):
            return None, (lambda it: RowV(v, it)), mk('len', self.tabrows(v))
        if isinstance(v, ColNames):
            t = self.tm(v)
            return None, (lambda it: mk('colname', t, it)), mk('len', t)
        if isinstance(v, PhiV):
            t = self.tm(v)
            return None, (lambda it: idx(t, it)), mk('len', t)
        k = self.items_of(v)
        if k is not None and len(k) <= 64:
            return k, None, None
        t = self.tm(v)
        if t.op == 'range':
            a = t.args
            if len(a) == 1:
                return None, (lambda it: it), a[0]
            if len(a) == 2:
                return None, (lambda it: add(it, a[0])), sub(a[1], a[0])
            return None, (lambda it: add(a[0], mul(it, a[2]))), t
        if isinstance(v, Ref):
            return None, (lambda it: Ref(v.loc, v.path + (it,))), self.len_of(t)
        return None, (lambda it: idx(t, it)), self.len_of(t)

    def len_of(self, t):
        if t.op in ('list', 'tuple', 'dict') and not any(isinstance(x, T) and x.op == 'star' for x in t.args):
            return const(len(t.args))
        if t.op == 'map':
            return t.args[1]
        r = self.rows_of(t)
        if r is not None:
            return mk('len', r)
        if t.op == 'rand' and dict(t.args[3]).get('size') is not None:
            sz = dict(t.args[3])['size']
            if sz.op in ('tuple', 'list') and sz.args:
                return sz.args[0]
            if sz.op != 'attr':
                return sz
        return mk('len', t)

    def rows_of(self, t):
        """row set a column-like term is aligned with, as term, if evident"""
        while t.op == 'upd':
            t = t.args[0]
        if t.op == 'col':
            return mk('rows', 'photons') if False else None
        return None

    def st_For(self, s):
        self.for_over(s, self.ev(s.iter))

    def alternatives(self, v):
        """(condition, a, b) of an iterable that is one of two containers"""
        if isinstance(v, PhiV):
            if any(isinstance(x, (Lst, Dct, Tup, IterV, PhiV)) for x in (v.a, v.b)):
                return v.c, v.a, v.b
        elif isinstance(v, IterV) and v.parts and v.kind in ('enumerate', 'items', 'reversed', 'zip'):
            for i, p in enumerate(v.parts):
                r = self.alternatives(p)
                if r:
                    f = lambda x: IterV(v.kind, list(v.parts[:i]) + [x] + list(v.parts[i + 1:]), v.extra)
                    return r[0], f(r[1]), f(r[2])
        return None

    def for_over(self, s, v):
        alt = self.alternatives(v)
        if alt:
            self.branch(alt[0], lambda: self.for_over(s, alt[1]), lambda: self.for_over(s, alt[2]))
            return
        known, mkf, dom = self.iter_spec(v)
        rec = {'break': [], 'cont': []}
        self.fr.loops.append(rec)
        npc = len(self.st.pc)
        try:
            if known is not None:
                alive = True
                for x in known:
                    self.assign(s.target, x, s)
                    if not self.run_body(s.body, npc):
                        alive = False
                        break
                sts = rec['break'] + ([self.st] if alive else [])
                if alive and s.orelse:
                    try:
                        self.exec_block(s.orelse)
                        sts[-1] = self.st
                    except Dead:
                        sts.pop()
                if not sts:
                    raise Dead()
                self.st = self.merge_exits(sts, npc)
                return
            self.loop(lambda it: self.assign(s.target, mkf(it), s), s.body, dom, rec, npc, s)
        finally:
            self.fr.loops.pop()
        if s.orelse:
            self.exec_block(s.orelse)

    def st_While(self, s):
        rec = {'break': [], 'cont': []}
        self.fr.loops.append(rec)
        npc = len(self.st.pc)
        c = self.cond(s.test)
        try:
            if c is FALSE:
                return
            self.loop(lambda it: self.cond(s.test), s.body, mk('while', c), rec, npc, s)
        finally:
            self.fr.loops.pop()

    def loop(self, start, body, dom, rec, npc, node):
        depth = self.depth_it
        it = mk('it', const(depth))
        self.depth_it += 1
        pre = self.st
        exits_n = len(self.fr.exits)
        try:
            # pass 1: what changes
            self.silent += 1
            self.st = pre.clone()
            rec['break'] = []
            start(it)
            try:
                alive = self.run_body(body, npc)
            except Dead:
                alive = False
            after = [self.st] if alive else []
            after += rec['break']
            del self.fr.exits[exits_n:]
            changed = set()
            for st in after:
                for k, val in st.heap.items():
                    o = pre.heap.get(k)
                    if o is not val and not (isinstance(o, V) and isinstance(val, V) and self.sameref(o, val)):
                        if o is not None or k[0] in ('col0', 'attr0', 'init', 'colref', 'a'):
                            if isinstance(o, DState) and isinstance(val, DState) and o.items == val.items:
                                continue
                            changed.add(k)
            self.silent -= 1
            # pass 2: with loop-carried symbols
            self.st = pre.clone()
            mus = {}
            order = sorted(changed, key=str)
            for j, k in enumerate(order):
                o = pre.heap.get(k)
                if o is None:
                    if k[0] in ('col0', 'attr0', 'init'):
                        o = self.cell_default(k)
                    elif k[0] == 'colref':
                        o = self._coldef(k, pre)
                    elif k[0] == 'a':
                        continue
                name = f'{self.keyname(k)}#{self.fresh()}'
                mu = mk('mu', const(depth), name)
                if k[0] == 'd':
                    mus[k] = (o, None)
                    continue
                if isinstance(o, T):
                    self.st.heap[k] = mu
                    mus[k] = (o, mu)
                elif isinstance(o, tuple):      # list contents
                    self.st.heap[k] = mu
                    mus[k] = (o, mu)
                elif isinstance(o, Ref):
                    loc = ('c', self.fresh())
                    self.st.heap[loc] = mu
                    self.st.heap[k] = Ref(loc)
                    mus[k] = (o, mu)
                elif k[0] == 'colref':
                    loc = ('c', self.fresh())
                    self.st.heap[loc] = mu
                    self.st.heap[k] = Ref(loc)
                    mus[k] = (o, mu)
                else:
                    mus[k] = (o, None)
            rec['break'] = []
            self.st.pc = self.st.pc + (mk('inloop', dom),)
            start(it)
            alive = self.run_body(body, npc + 1)
            outs = []
            hasbreak = bool(rec['break'])
            if alive:
                outs.append(self.st)
            outs = rec['break'] + outs
            if not outs:
                # every iteration leaves the function: zero iterations continue
                self.st = pre
                return
            end = self.merge_exits(outs, npc)
            end.pc = pre.pc
            end.facts = pre.facts
            cm = self.canon_mus([(mu, self._tm_in(o, pre) if not isinstance(o, tuple) else
                                  mk('list', *[self._tm_in(x, pre) for x in o]), self._endval(end, k))
                                 for k, (o, mu) in mus.items() if mu is not None], it)
            if cm:
                mus = {k: (o, cm.get(mu, mu) if mu is not None else None) for k, (o, mu) in mus.items()}
                self.mumap.update(cm)
                for k, val in list(end.heap.items()):
                    if pre.heap.get(k) is not val:
                        end.heap[k] = self._subst_val(val, cm)
            for k in order:
                if k not in mus:
                    continue
                o, mu = mus[k]
                val = end.heap.get(k)
                if mu is None:
                    if isinstance(o, DState) and isinstance(val, DState):
                        end.heap[k] = self.loop_dict(o, val, dom, end)
                    continue
                if isinstance(o, tuple):
                    end.heap[k] = self.loop_list(o, mu, val, dom, end)
                    continue
                pv = self._tm_in(o, pre)
                bv = self._tm_in(val, end) if val is not None else mu
                if bv is mu:
                    r = pv
                elif is_num(pv) and bv.op == 'poly' and is_num(sub(bv, mu)) and not hasbreak and dom.op != 'while':
                    r = add(pv, mul(sub(bv, mu), dom))
                elif not contains(bv, lambda x: x is mu) and not hasbreak and \
                        not contains(bv, lambda x: x is it):
                    r = mk('loop', pv, bv, dom) if bv is not pv else pv
                else:
                    r = mk('loop', pv, bv, dom)
                if isinstance(o, T):
                    end.heap[k] = r
                else:
                    loc = ('c', self.fresh())
                    end.heap[loc] = r
                    end.heap[k] = Ref(loc)
            self.st = end
        finally:
            self.depth_it -= 1

    def _endval(self, end, k):
        val = end.heap.get(k)
        if val is None:
            return mk('missing')
        if isinstance(val, tuple):
            return mk('list', *[self._tm_in(x, end) for x in val])
        return self._tm_in(val, end)

    def _subst_val(self, val, cm):
        if isinstance(val, T):
            return substitute(val, cm)
        if isinstance(val, tuple):
            return tuple(self._subst_val(x, cm) for x in val)
        return val

    def canon_mus(self, info, it):
        """names for the loop-carried variables that say what they are (initial value and update)
        and not how the code calls them"""
        def blank(x):
            if x.op == 'mu' and '#' in x.args[1]:
                return mk('mu', x.args[0], '?')
            return mk('rand', const(0), *x.args[1:]) if x.op == 'rand' else x
        out, used = {}, {}
        # counters
        for mu, pv, bv in info:
            if is_num(pv) and not isinstance(cval(pv), bool) and bv.op == 'poly':
                step = sub(bv, mu)
                if is_num(step):
                    out[mu] = add(pv, mul(step, it))
            elif bv is not mu and self.own_element(bv, mu, it):
                # only the element of this iteration is written: it still has its first value
                out[idx(mu, it)] = idx(pv, it)
        info = [(mu, pv, substitute(bv, out) if out else bv) for mu, pv, bv in info if mu not in out]
        for mu, pv, bv in info:
            key = mk('mukey', rebuild(pv, blank), rebuild(bv, blank))
            h = hashlib.md5(sortkey(key).encode()).hexdigest()[:8]
            n = used[h] = used.get(h, -1) + 1
            raw = 'col0' if mu.args[1].startswith('col0') else 'm'
            out[mu] = mk('mu', mu.args[0], f'{raw}{h}' + (f'.{n}' if n else ''))
        return out

    def own_element(self, t, mu, it):
        while t.op == 'upd' and t.args[1] is it:
            t = t.args[0]
        return t is mu or t.op == 'phi' and all(self.own_element(x, mu, it) for x in t.args[1:])

    def sameref(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Ref):
            return a == b
        if isinstance(a, (Lst, Dct, Obj)):
            return a.oid == b.oid
        if isinstance(a, Tab):
            return a.tid == b.tid
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(x is y or self.sameref(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, ClsV):
            return a.ci is b.ci
        if isinstance(a, ExtV):
            return a.dotted == b.dotted
        if isinstance(a, Func):
            return a.node is b.node
        if isinstance(a, Bound):
            return a.func.node is b.func.node and self.sameref(a.obj, b.obj)
        return False

    def keyname(self, k):
        if k[0] == 'v':
            return k[2]
        if k[0] == 'a':
            return f'.{k[2]}'
        if k[0] == 'colref':
            return f'col:{k[2]}'
        if k[0] == 'col0':
            return f'col0:{k[3]}'
        if k[0] == 'attr0':
            return f'attr:{k[2]}'
        if k[0] == 'c':
            return f'cell{k[1]}'
        return f'{k[0]}{k[1]}'

    def loop_list(self, pre, mu, val, dom, end):
        if val is mu:
            return pre
        m = None
        if isinstance(val, T):
            if val.op == 'app' and val.args[0] is mu:
                m = mk('map', val.args[1], dom)
            else:
                # at most one element is added on every path
                def split(v):
                    if v is mu:
                        return FALSE, None
                    if v.op == 'app' and v.args[0] is mu:
                        return TRUE, v.args[1]
                    if v.op != 'phi':
                        return None
                    x, y = split(v.args[1]), split(v.args[2])
                    if x is None or y is None:
                        return None
                    return phi(v.args[0], x[0], y[0]), x[1] if y[1] is None else y[1] if x[1] is None else phi(v.args[0], x[1], y[1])
                sp = split(val)
                if sp is not None and sp[1] is not None:
                    m = mk('filtermap', sp[0], sp[1], dom) if sp[0] is not TRUE else mk('map', sp[1], dom)
        if m is not None:
            if not pre:
                return m
            return mk('concat', mk('list', *[self._tm_in(x, end) for x in pre]), m)
        return mk('loop', mk('list', *[self._tm_in(x, end) for x in pre]),
                  val if isinstance(val, T) else mk('list', *[self._tm_in(x, end) for x in val]), dom)

    def loop_dict(self, pre, val, dom, end):
        out = []
        op = val.open
        for k, v in val.items:
            p = pre.get(k)
            if p is v:
                out.append((k, v))
            elif contains(k, lambda x: x.op in ('it', 'mu')):
                op = mk('loopitems', k, self._tm_in(v, end), dom)
            else:
                if isinstance(v, T) or isinstance(v, Ref):
                    pv = self._tm_in(p, end) if p is not None else mk('missing')
                    out.append((k, mk('loop', pv, self._tm_in(v, end), dom)))
                else:
                    out.append((k, v))
        return DState(out, op)

    # comprehension -----------------------------------------------
    def comp(self, gens, elt):
        """list of values, or T map"""
        return self.comp_over(gens, elt, self.ev(gens[0].iter))

    def comp_over(self, gens, elt, v):
        g = gens[0]
        alt = self.alternatives(v)
        if alt and self.known_truth(alt[0]) is not None:
            return self.comp_over(gens, elt, alt[1] if self.known_truth(alt[0]) else alt[2])
        known, mkf, dom = self.iter_spec(v)
        if known is not None:
            out = []
            sym = False
            for x in known:
                self.assign(g.target, x, g.iter)
                cs = and_(*[self.cond(c) for c in g.ifs]) if g.ifs else TRUE
                k = self.known_truth(cs)
                if k is False:
                    continue
                if k is None:
                    sym = True
                r = self.comp(gens[1:], elt) if len(gens) > 1 else self.bind(elt())
                if len(gens) > 1 and isinstance(r, list):
                    if k is None:
                        out.extend(mk('opt', cs, self.tm(y)) for y in r)
                    else:
                        out.extend(r)
                elif k is None:
                    out.append(mk('opt', cs, self.tm(r)))
                else:
                    out.append(r if len(gens) == 1 else mk('star', r))
            return out
        it = mk('it', const(self.depth_it))
        self.depth_it += 1
        pc, facts = self.st.pc, self.st.facts
        try:
            self.st.pc = pc + (mk('inloop', dom),)
            self.assign(g.target, mkf(it), g.iter)
            cs = and_(*[self.cond(c) for c in g.ifs]) if g.ifs else TRUE
            if cs is not TRUE:
                self.st.pc = self.st.pc + (cs,)
            r = self.comp(gens[1:], elt) if len(gens) > 1 else self.tm(elt())
            if isinstance(r, list):
                r = mk('list', *[self.tm(x) for x in r])
            if len(gens) > 1:
                r = mk('flat', r)
            if cs is TRUE:
                return mk('map', r, dom)
            return mk('filtermap', cs, r, dom)
        finally:
            self.depth_it -= 1
            if self.st is not None:
                self.st.pc, self.st.facts = pc, facts

    def scoped(self, f):
        saved = {k: v for k, v in self.st.heap.items() if k[0] == 'v' and k[1] == self.fr.fid}
        try:
            return f()
        finally:
            if self.st is not None:
                for k in [k for k in self.st.heap if k[0] == 'v' and k[1] == self.fr.fid]:
                    if k in saved:
                        self.st.heap[k] = saved[k]
                    else:
                        del self.st.heap[k]

    def ev_ListComp(self, n):
        r = self.scoped(lambda: self.comp(n.generators, lambda: self.ev(n.elt)))
        if isinstance(r, list):
            if any(isinstance(x, T) and x.op in ('opt', 'star') for x in r):
                return mk('list', *[self.tm(x) for x in r])
            return self.newlist(r)
        return self.newlist(r)

    def ev_GeneratorExp(self, n):
        r = self.scoped(lambda: self.comp(n.generators, lambda: self.ev(n.elt)))
        return Tup(r) if isinstance(r, list) else r

    def ev_SetComp(self, n):
        r = self.scoped(lambda: self.comp(n.generators, lambda: self.ev(n.elt)))
        return mk('setof', r if isinstance(r, T) else mk('list', *[self.tm(x) for x in r]))

    def ev_DictComp(self, n):
        def pair():
            k = self.ev(n.key)
            return Tup([self.tm(k), self.bind(self.ev(n.value))])
        r = self.scoped(lambda: self.comp(n.generators, pair))
        if isinstance(r, list) and all(isinstance(x, Tup) for x in r):
            return self.newdict([(x.items[0], x.items[1]) for x in r])
        t = r if isinstance(r, T) else mk('list', *[self.tm(x) for x in r])
        return self.newdict((), mk('dictof', t))

    # -------------------------------------------------- calls
    def ev_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.lookup('super', self.fr) is None:
            f = self.fr
            while f is not None and f.selfobj is None:
                f = f.func.env
            if f is None:
                return mk('super')
            return Super(f.func.cls, f.selfobj)
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                its = self.items_of(v)
                if its is None:
                    t = self.tm(v)
                    args.append(mk('star', t))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a))
        kw = {}
        given = {k.arg for k in n.keywords}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, Dct):
                    s = self.st.heap[('d', v.oid)]
                    for kk, vv in s.items:
                        if is_const(kk) and cval(kk) in given:
                            continue        # has been removed from the dictionary, or the call fails
                        kw[cval(kk) if is_const(kk) else kk] = vv
                    if s.open is not None:
                        kw['**'] = s.open
                else:
                    kw['**'] = self.tm(v)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.do_call(f, args, kw, n)

    def do_call(self, f, args, kw, node=None):
        if isinstance(f, PhiV):
            return self.branch(f.c, lambda: self.do_call(f.a, args, kw, node),
                               lambda: self.do_call(f.b, args, kw, node))
        h = self.hooks.get('call')
        if h:
            r = h(self, f, args, kw, node)
            if r is not None:
                return r
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.do_call(f.f, list(f.args) + list(args), k2, node)
        if isinstance(f, ClsV):
            return self.instantiate(f.ci, args, kw, node)
        if isinstance(f, ExtV):
            return self.call_ext(f.dotted, args, kw, node)
        if isinstance(f, Meth):
            return self.call_meth(f, args, kw, node)
        if isinstance(f, Obj):
            fm = self.prog.find_method(f.cls, '__call__')
            if fm and fm[1] is not None:
                from .extlib import kept
                self.event('objcall', node, callee=f.cls.qual, targs=tuple(self.tm(a) for a in args), held=tuple(kept(self, a) for a in args))
                return self.do_call(self.make_bound(f, fm[1], fm[0]), args, kw, node)
        return self.call_opaque(self.tm(f), args, kw, node, f)

    def kwterms(self, kw):
        out = []
        for k, v in kw.items():
            out.append((k if isinstance(k, str) else '?' + show(k), self.tm(v)))
        return tuple(sorted(out))

    def call_opaque(self, ft, args, kw, node, fv=None):
        ta = tuple(self.tm(a) for a in args)
        tk = self.kwterms(kw)
        tabs = [a for a in list(args) + list(kw.values()) if isinstance(a, Tab)]
        from .extlib import kept
        self.event('opaque', node, held=tuple(kept(self, a) for a in args), callee=ft, args=args, kw=kw, targs=ta, tkw=tk, tabs=tabs, fv=fv, stmt=id(node) in self.stmts)
        r = tcall(ft, ta, tk)
        if tabs and not (isinstance(ft, str)):
            pol = self.hooks.get('opaque_tab')
            if pol:
                x = pol(self, ft, args, kw, node, r)
                if x is not None:
                    return x
        return r

    def call_ext(self, d, args, kw, node):
        from . import extlib
        r = extlib.call_ext(self, d, args, kw, node)
        if r is not None:
            return r
        return self.call_opaque(d, args, kw, node)

    def call_meth(self, m, args, kw, node):
        from . import extlib
        return extlib.call_meth(self, m, args, kw, node)

    def instantiate(self, ci, args, kw, node):
        ta = tuple(self.tm(a) for a in args)
        tk = self.kwterms(kw)
        term = mk('new', ci.qual, ta, tk)
        self.event('new', node, cls=ci, args=args, kw=kw, targs=ta, tkw=tk)
        o = Obj(('o', self.fresh()), ci, term, known=True)
        if any(isinstance(b, str) and ('Exception' in b or b in EXC) for b in self.prog.ext_bases(ci)):
            return o
        fm = self.prog.find_method(ci, '__init__')
        if fm and fm[1] is not None and f'{fm[0].qual}.__init__' not in self.hooks.get('forced', ()):
            self.call_func(Func(fm[1], fm[0].mod, fm[0]), [o] + list(args), kw, node)
        hidden = {f'{kc.qual}.__init__' for kc in self.prog.mro(ci)}
        if hidden & (set(self.hooks.get('forced', ())) | self.opaque):
            # attributes may have been set in there
            o.known = False
        return o

    def call_func(self, f, args, kw, node=None):
        fn = f.node
        if not isinstance(fn, ast.Lambda) and getattr(fn, 'decorator_list', None) and \
                not getattr(f, 'raw', False) and f.env is None:
            # decorators evaluated once
            names = {ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1] for d in fn.decorator_list}
            if names - {'property', 'staticmethod', 'classmethod', 'wraps', 'format_doc', 'abstractmethod'}:
                raw = Func(f.node, f.mod, f.cls, f.env, f.qual)
                raw.raw = True
                g = self.decorated(raw)
                if isinstance(g, Func) and g.node is not raw.node:
                    return self.call_func(g, args, kw, node)
        if self.stack and f.cls is not None and not isinstance(fn, ast.Lambda) and _abstract(fn):
            # to be provided by derived classes
            return self.call_opaque(mk('func', f.qual), args, kw, node, f)
        nrec = sum(1 for x in self.stack if x.func.node is fn)
        if len(self.stack) >= self.max_depth or nrec >= 3:
            self.opaque.add(f.qual)
            return self.call_opaque(mk('func', f.qual), args, kw, node, f)
        fr = Frame(f, None)
        self.inlined.add(f.qual)
        ok = self.bind_args(f, fr, args, kw, node)
        if f.cls is not None and args and isinstance(args[0], (Obj, ClsV)) and not isinstance(fn, ast.Lambda) \
                and f.env is None:
            fr.selfobj = args[0]
        elif f.cls is not None and f.env is None and args and not isinstance(fn, ast.Lambda):
            fr.selfobj = args[0]
        isgen = not isinstance(fn, ast.Lambda) and _is_gen(fn)
        if isgen:
            fr.yields = self.newlist(())
        npc = len(self.st.pc)
        pre_pc, pre_facts = self.st.pc, self.st.facts
        self.stack.append(fr)
        try:
            if isinstance(fn, ast.Lambda):
                r = self.ev(fn.body)
                return r
            alive = True
            try:
                self.exec_block(fn.body)
            except Dead:
                alive = False
            exits = fr.exits
            if alive:
                exits = exits + [(NONE, self.st, fn)]
            if not exits:
                raise Dead()
            v, st, _ = exits[-1]
            for v2, s2, _ in reversed(exits[:-1]):
                cs = [c for c in s2.pc[npc:]]
                c = and_(*cs) if cs else TRUE
                if c is TRUE:
                    v, st = v2, s2
                else:
                    if isinstance(v2, (T, Ref)) and isinstance(v, (T, Ref)) and v2 is not v and v2 != v:
                        v2, v = self._tm_in(v2, s2), self._tm_in(v, st)
                    st = self.merge(c, s2, st)
                    v = self.mergev(c, v2, v)
            st.pc = pre_pc
            self.st = st
            if isgen:
                return fr.yields
            return v
        finally:
            self.stack.pop()

    def bind_args(self, f, fr, args, kw, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        vals = {}
        args = list(args)
        star = None
        # starred opaque argument
        for j, x in enumerate(args):
            if isinstance(x, T) and x.op == 'star':
                star = (j, x.args[0])
                break
        if star is not None:
            j, t = star
            rest = args[j + 1:]
            args = args[:j]
            need = pos[len(args):]
            need = [p for p in need if p not in kw]
            take = need[:max(0, len(need) - len(rest))]
            for q, p in enumerate(take):
                args.append(idx(t, const(q)))
            if a.vararg is not None and not rest and len(args) >= len(pos):
                args.append(mk('star', idx(t, mk('slice', const(len(take)), NONE, NONE)) if take else t))
            args += rest
        for p, v in zip(pos, args):
            vals[p] = v
        extra = args[len(pos):]
        kw = dict(kw)
        openkw = kw.pop('**', None)
        for k in list(kw):
            if isinstance(k, str) and (k in pos or k in kwonly):
                if k in vals:
                    self.event('badcall', node, func=f.qual, why=f'multiple values for {k}')
                vals[k] = kw.pop(k)
        for p in pos + kwonly:
            if p not in vals:
                if p in defaults:
                    d = self.default_value(f, p, defaults[p])
                    if openkw is not None:
                        t = mk('kw', openkw, const(p))
                        d = self.mergev(mk('in', const(p), openkw), t, d)
                    vals[p] = d
                elif openkw is not None:
                    vals[p] = mk('kw', openkw, const(p))
                else:
                    self.event('badcall', node, func=f.qual, why=f'missing argument {p}')
                    vals[p] = mk('param', p)
        if extra:
            if a.vararg is None:
                self.event('badcall', node, func=f.qual, why='too many positional arguments')
        if a.vararg is not None:
            self.st.heap[('v', fr.fid, a.vararg.arg)] = Tup(extra)
        if a.kwarg is not None:
            its = [(const(k) if isinstance(k, str) else k, self.bind(v)) for k, v in kw.items()]
            d = self.newdict(its, openkw)
            self.st.heap[('v', fr.fid, a.kwarg.arg)] = d
        elif kw:
            self.event('badcall', node, func=f.qual, why=f'unexpected keyword {sorted(map(str, kw))}')
        for p, v in vals.items():
            self.st.heap[('v', fr.fid, p)] = self.bind(v) if isinstance(v, T) else v
        return True

    def default_value(self, f, p, d):
        key = ('dflt', f.qual, p)
        v = self.st.heap.get(key)
        if v is not None:
            return v
        if f.env is not None:
            self.stack.append(f.env)
            try:
                v = self.bind(self.ev(d))
            finally:
                self.stack.pop()
        elif isinstance(d, (ast.Name, ast.Attribute)) and f.cls is not None and isinstance(d, ast.Name) and \
                d.id in f.cls.attrs:
            v = self.class_attr(f.cls, d.id)
        else:
            v = self.global_value(d, f.mod, ('default', f.qual, p))
        if not isinstance(v, T):
            self.st.heap[key] = v
        return v

    def list_append(self, l, v):
        s = self.lst(l)
        if isinstance(s, T):
            self.st.heap[('l', l.oid)] = mk('app', s, self.tm(v))
        else:
            self.st.heap[('l', l.oid)] = s + (self.bind(v),)


class ColNames(V):
    def __init__(self, tab):
        self.tab = tab


_tm = Interp.tm


def _tm2(self, v):
    if isinstance(v, ColNames):
        return mk('colnames', self.tver(v.tab) if v.tab.sel is None else self.tm(v.tab))
    if isinstance(v, IterV):
        if v.kind == 'range':
            return mk('range', *[self.tm(x) for x in v.parts])
        return mk(v.kind, *[self.tm(x) for x in v.parts])
    return _tm(self, v)


Interp.tm = _tm2


class IterV(V):
    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra


def _abstract(fn):
    body = [x for x in fn.body if not (isinstance(x, ast.Pass) or isinstance(x, (ast.Expr, ast.Assign)) and isinstance(x.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Raise) or body[0].exc is None:
        return False
    e = body[0].exc
    e = e.func if isinstance(e, ast.Call) else e
    return isinstance(e, ast.Name) and e.id == 'NotImplementedError'


def _is_gen(fn):
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False
