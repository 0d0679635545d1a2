"""Effect analysis: a flow-sensitive, interprocedural may-alias analysis computes for every function which existing
objects it writes to - arguments, attributes, class level and module level objects.  Objects that are shared
(class level lists and dictionaries, module level configurations, default values of arguments) may never be
written to; arguments and attributes only by the functions that are documented to change them (spec/effects.json,
reviewed by hand)."""
import ast
import json
import os
from ..alias import Effects
from ..report import HOME

SHARED_OK = {
    # remembers which log messages were shown already; no influence on any result
    'marxs.missions.arcus.load_csv.hash_displayed',
}


def entity_of_default(eff, node, mod, p):
    a = node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    v = d.get(p)
    if v is None or isinstance(v, (ast.Constant, ast.Tuple, ast.Lambda, ast.UnaryOp, ast.BinOp)):
        return None
    if isinstance(v, (ast.List, ast.Dict)):
        return 'empty' if not (v.elts if isinstance(v, ast.List) else v.keys) else 'literal'
    if isinstance(v, (ast.Name, ast.Attribute)):
        e = eff.prog.expr_to_entity(v, mod)
        return 'global' if e[0] == 'assign' and eff.mutable_global(e) else None
    return None


def shared_name(r):
    return r[1]


def table(prog):
    """effects of every function: what the check compares with the reviewed list"""
    eff = Effects(prog)
    out = {}
    for q, s in eff.sum.items():
        e = out[q] = {}
        init = q.rpartition('.')[2] in ('__init__', 'setter')
        for (r, lvl), info in s.muts.items():
            if r[0] == 'param':
                key = f'{r[1]}:{lvl}'
            elif r[0] in ('self', 'me'):
                if init:
                    continue
                key = f'self.{r[1]}:{lvl}' if r[0] == 'self' else f'self:{lvl}'
            else:
                key = f'shared {shared_name(r)}'
            e[key] = info
    return eff, out


def run(prog, chk):
    chk.rule('shared', 'objects that are shared between instances or calls (class level, module level, default values) '
             'are never written to', floor=100)
    chk.rule('arguments', 'arguments are only changed by functions that are documented to change them', floor=100)
    chk.rule('memory', 'methods only change the attributes they are documented to change; processing photons, intersecting and '
             'plotting leave the object as it was', floor=50)
    base = json.load(open(os.path.join(HOME, 'spec', 'effects.json')))
    eff, tab = table(prog)
    chk.count('call_sites_resolved', eff.calls)
    known = base['functions']
    pend = []
    for q, e in sorted(tab.items()):
        node, mod, ci = eff.funcs[q]
        short = q.replace('marxs.', '', 1)
        chk.ok('shared', short)
        chk.ok('arguments', short)
        if ci is not None:
            chk.ok('memory', short)
        # a whole column or some rows of it, an object or something inside it: the same permission
        allowed = {k.rpartition(':')[0] for k in known.get(q, ())}
        for key, (how, where) in sorted(e.items()):
            if key.startswith('shared '):
                if key[7:] not in SHARED_OK:
                    pend.append(('shared', short, key[7:], f'writes to the shared object {key[7:]}: {how}', where, how))
                continue
            p, _, lvl = key.rpartition(':')
            if not p.startswith('self'):
                d = entity_of_default(eff, node, mod, p)
                if (d == 'global' or d == 'literal' or d == 'empty' and lvl == '0' and not how.startswith('.pop')) and \
                        p not in allowed and q not in known:
                    pend.append(('shared', short, p, f'changes the default value of argument {p}: {how}', where, how))
                    continue
            if q not in known or p in allowed:
                continue
            if p.startswith('self'):
                pend.append(('memory', short, p, f'changes {p}: {how}', where, how))
            else:
                pend.append(('arguments', short, p, f'changes the object passed in as {p}: {how}', where, how))
    direct = [x for x in pend if ' in marxs.' not in x[5]]
    for rule, short, p, msg, where, how in direct or pend:
        chk.bad(rule, f'{short}:{p}', msg, where)
