"""Everything in the code base that consumes a photon list, analysed once."""
from . import elements as E
from .term import contains, mk, const, T, show


def istab(v):
    """is this table version (or row count) the photon list under analysis?"""
    return contains(v, lambda x: x.op == 'sym' and x.args[0] == 'photons' or x.op == 'rows' and x.args[0] == 'P')


class Entry:
    def __init__(self, kind, qual, owner, summary):
        self.kind, self.qual, self.owner, self.s = kind, qual, owner, summary
        self.short = qual.replace('marxs.', '', 1)

    def facts_at_stores(self, loc_pred):
        return [e for e in self.s.events if e.kind == 'store' and loc_pred(e.loc)]


class Model:
    def __init__(self, prog):
        self.prog = prog
        self._e = None
        self.functions = set()

    def entries(self, kinds=None):
        if self._e is None:
            out = []
            P = self.prog
            for kind, c, m in E.entries(P):
                own = P.find_method(c, m)[0]
                if kind == 'call' and own is not c:
                    continue
                s = E.run_entry(P, c, m)
                out.append(Entry(kind, c.qual, own.qual, s))
            for c in E.other_callables(P):
                out.append(Entry('other', c.qual, c.qual, E.run_entry(P, c, '__call__')))
            for q in E.photon_functions(P):
                out.append(Entry('func', q, q, E.run_function(P, q)))
            self._e = out
            for e in out:
                self.functions |= e.s.ip.inlined
        return [e for e in self._e if kinds is None or e.kind in kinds]

    def where_of(self, e, m):
        """source position of an entry's method"""
        c = self.prog.classes.get(e.qual)
        if c is None:
            node, mod, _ = self.prog.funcs[e.qual]
            return (mod.rel(), node.lineno, e.qual)
        k, node = self.prog.find_method(c, m)
        return (k.mod.rel(), node.lineno, f'{k.qual}.{m}')


def colstores(e, name):
    """store events that change column `name` of the photon list"""
    s = e.s
    locs = {('col0', s.tab.tid, s.start, const(name))}
    for ev in s.events:
        if ev.kind in ('colset', 'addcol') and ev.data.get('name') is const(name):
            pass
    k = s.ip.st.heap.get(('colref', s.tab.tid, const(name)))
    if k is not None and hasattr(k, 'loc'):
        locs.add(k.loc)
    out = []
    for ev in s.events:
        if ev.kind == 'store':
            if ev.loc in locs or ev.loc[0] == 'col0' and ev.loc[1] == s.tab.tid and ev.loc[3] is const(name):
                out.append(ev)
    return out
