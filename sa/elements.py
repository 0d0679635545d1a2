"""Photon-consuming callables of the code base and their value-flow summaries.

Every class derived from SimulationSequenceElement, every other class with a
`__call__` that takes a photon list and every module level function used as a
simulation step is analysed once per entry point, with the photon table, the
intersection mask, the intersection points and the local coordinates as
symbolic inputs.
"""
import ast
from .interp import (Interp, Obj, Tab, Tup, Ref, Func, Frame, ExtV, Bound, Meth, Dead, Budget, T, Lst, PhiV)
from .term import mk, const, is_const, cval, idx, show, call as tcall, TRUE, FALSE, NONE

KNOWN = ('time', 'dir', 'pos', 'energy', 'polarization', 'probability')
HIT = mk('sym', 'hit')
IPOS = mk('sym', 'interpos')
COOS = mk('sym', 'coos')


class Summary:
    def __init__(self, ip, entry, obj, tab, ret, err):
        self.ip, self.entry, self.obj, self.tab, self.ret, self.err = ip, entry, obj, tab, ret, err
        self.events = ip.events

    def final(self):
        """name -> (term, presence) for columns that were written"""
        out = {}
        for k, v in self.ip.st.heap.items():
            if k[0] == 'colref' and k[1] == self.tab.tid:
                out[k[2]] = (self.ip.tm(v), self.ip.hascol(self.tab, k[2]))
        return out

    def col(self, name):
        return self.ip.tm(self.ip.getcol(self.tab, const(name) if isinstance(name, str) else name))

    @property
    def start(self):
        return mk('sym', 'photons')


def sym(n):
    return Ref(('init', mk('sym', n), ()))


def attr_hook(ip, o, name):
    if name == 'loc_coos_name':
        fa = ip.prog.find_attr(o.cls, name)
        if fa and isinstance(fa[1], (ast.List, ast.Tuple)):
            try:
                return ip.newlist([const(x) for x in ast.literal_eval(fa[1])])
            except ValueError:
                pass
        return ip.newlist([const('<loc0>'), const('<loc1>')])
    if name == 'id_col':
        fa = ip.prog.find_attr(o.cls, name)
        if fa and isinstance(fa[1], ast.Constant) and isinstance(fa[1].value, str):
            return const(fa[1].value)
        if isinstance(o.oid, str) and o.oid != 'self':
            return const('<id:%s>' % o.oid)
        return const('<id>')
    return None


OPAQUE_FUNCS = {
    'marxs.math.polarization.parallel_transport',
    'marxs.math.polarization.paralleltransport_matrix',
}


def call_hook(ip, f, args, kw, node):
    if isinstance(f, Func) and f.qual in OPAQUE_FUNCS:
        names = [a.arg for a in f.node.args.args]
        vals = list(args)
        for n in names[len(vals):]:
            if n in kw:
                vals.append(kw[n])
            else:
                break
        rest = {k: v for k, v in kw.items() if k not in names}
        ip.inlined.add(f.qual)
        return tcall(mk('func', f.qual), tuple(ip.tm(a) for a in vals), ip.kwterms(rest))
    name = None
    if isinstance(f, Meth):
        name = f.name
    elif isinstance(f, Bound):
        name = f.func.node.name
    elif isinstance(f, Ref) or isinstance(f, T):
        t = ip.tm(f)
        if t.op == 'attr':
            name = t.args[1]
    if name == 'intersect' and len(args) + len(kw) >= 2 and not isinstance(f, (Func,)):
        vals = list(args)
        d = vals[0] if vals else kw.get('dir')
        p = vals[1] if len(vals) > 1 else kw.get('pos')
        if d is None or p is None:
            return None
        base = ip.tm(f)
        ip.event('intersect', node, base=base, dir=ip.tm(d), pos=ip.tm(p))
        n = mk('isect', base, ip.tm(d), ip.tm(p))
        return Tup([ip.newcell(mk('hit', n)), ip.newcell(mk('interpos', n)), ip.newcell(mk('coos', n))])
    return None


def opaque_tab_hook(ip, ft, args, kw, node, result):
    """a call of unknown code with a photon table: assumed to obey the
    properties itself (it is analysed as an entry of its own)"""
    tab = next((a for a in list(args) + list(kw.values()) if isinstance(a, Tab)), None)
    if tab is None:
        return None
    if isinstance(ft, T) and ft.op == 'attr' and ft.args[0].op == 'sym' and ft.args[0].args[0] == 'self' and \
            ft.args[1] not in ('process_photons', 'specific_process_photons', '__call__'):
        return None         # a supplied function computing numbers from the photons
    t = tab
    while t.sel is not None:
        t = t.parent
    ip.havoc_tab(t, result)
    return tab


def hooks():
    return {'attr': attr_hook, 'call': call_hook, 'opaque_tab': opaque_tab_hook}


def run_entry(prog, ci, meth, extra=None, budget=400000, hooks_=None, known=KNOWN, selfattrs=None):
    ip = Interp(prog, hooks_ or hooks(), budget=budget)
    o = Obj('self', ci, mk('sym', 'self'))
    for k, v in (selfattrs or {}).items():
        ip.st.heap[('a', 'self', k)] = v
    ph = ip.newtab('photons', known=list(known), n='P')
    fm = prog.find_method(ci, meth)
    if fm is None or fm[1] is None:
        return None
    f = Func(fm[1], fm[0].mod, fm[0])
    ip.stack.append(Frame(f, None))
    args = [o, ph]
    if meth == 'process_photons':
        npar = len(fm[1].args.args)
        va = fm[1].args.vararg is not None
        if npar > 2 or va:
            args += [sym('hit'), sym('interpos'), sym('coos')]
    elif meth == 'specific_process_photons':
        args += [sym('hit'), sym('interpos'), sym('coos')]
    err = None
    ret = None
    try:
        ret = ip.call_func(f, args, {})
    except Dead:
        err = 'never returns'
    except Budget as e:
        err = 'budget'
    return Summary(ip, f'{ci.qual}.{meth}', o, ph, ret, err)


def run_function(prog, qual, env=None, params=None, budget=400000, hooks_=None, tabparam='photons', known=KNOWN):
    node, mod, ci = prog.funcs[qual]
    ip = Interp(prog, hooks_ or hooks(), budget=budget)
    f = Func(node, mod, ci)
    ip.stack.append(Frame(f, None))
    ph = ip.newtab('photons', known=list(known), n='P')
    args = []
    for a in node.args.args:
        if a.arg == tabparam:
            args.append(ph)
        elif a.arg == 'self' and ci is not None:
            args.append(Obj('self', ci, mk('sym', 'self')))
        elif params and a.arg in params:
            args.append(params[a.arg])
        else:
            args.append(Ref(('init', mk('sym', a.arg), ())))
    err = ret = None
    try:
        ret = ip.call_func(f, args, {})
    except Dead:
        err = 'never returns'
    except Budget:
        err = 'budget'
    return Summary(ip, qual, None, ph, ret, err)


SSE = 'marxs.base.base.SimulationSequenceElement'
OE = 'marxs.optics.base.OpticalElement'


def element_classes(prog):
    return sorted(prog.subclasses(prog.cls(SSE)), key=lambda c: c.qual)


def entries(prog):
    """(kind, ClassInfo, method) of everything that consumes a photon table"""
    out = []
    base = prog.cls(OE)
    for c in element_classes(prog):
        isoe = base in prog.mro(c)
        pp = prog.find_method(c, 'process_photons')
        spp = prog.find_method(c, 'specific_process_photons')
        p1 = prog.find_method(c, 'process_photon')
        if isoe:
            real = (pp and pp[0] is not base) or spp or (p1 and p1[0] is not base)
            if real:
                out.append(('hit', c, 'process_photons'))
        elif pp:
            out.append(('pp', c, 'process_photons'))
        cm = prog.find_method(c, '__call__')
        if cm:
            out.append(('call', c, '__call__'))
    return out


def other_callables(prog):
    """classes outside the hierarchy whose __call__ takes a photon table"""
    sse = prog.cls(SSE)
    out = []
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        if sse in prog.mro(c):
            continue
        fm = prog.find_method(c, '__call__')
        if fm and fm[1] is not None and len(fm[1].args.args) > 1 and fm[1].args.args[1].arg == 'photons':
            out.append(c)
    return out


def photon_functions(prog):
    """module level functions with a `photons` parameter"""
    out = []
    for q, (node, mod, ci) in sorted(prog.funcs.items()):
        if ci is None and not q.startswith('spec.') and any(a.arg == 'photons' for a in node.args.args):
            out.append(q)
    return out
