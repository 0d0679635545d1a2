"""Shared driver: compare every specified function of one property with its specification."""
import os
from .equiv import load_specs, check_spec


# columns that a property speaks about: specified values of these belong to it, whatever the element
COLUMNS = {'P01': ("'probability'",), 'P02': ("column ",), 'P03': ("'pos'", "column self."), 'P04': ("'polarization'",),
           'P05': ("'pos'", "'dir'"), 'P06': ("'probability'",)}


def run_specs(prog, chk, prop, rule='spec', floor=1, text=None):
    chk.rule(rule, text or 'the value computed by each specified function has the canonical form of its specification',
             floor=floor)
    specs = load_specs(prog)
    opaque = {s.target for s in specs if s.opts.get('contract')}
    by = {}
    for s in specs:
        by.setdefault(s.target, []).append(s)
    todo, done, used = [], set(), set()
    n = nl = 0
    for s in specs:
        also = [sub for p, sub in s.opts.get('also', ()) if p == prop]
        if s.prop != prop and prop in COLUMNS and s.opts.get('tab', 'photons') in [a.arg for a in s.node.args.args]:
            also += COLUMNS.get(prop, ())
        if s.prop == prop or also:
            todo.append((s, also, rule))
            done.add(id(s))
    while todo:
        s, also, r = todo.pop(0)
        n, nl = n + (r == rule), nl + (r != rule)
        short = s.target.replace('marxs.', '', 1)
        lem = set()
        try:
            res = list(check_spec(prog, s, opaque, lem))
        except Exception as e:        # an unusual construct must not take the other obligations down
            if os.environ.get('SPEC_STRICT'):
                raise
            chk.unsure(r, short, f'not analysable: {type(e).__name__}')
            continue
        # what the specification takes from the code base has to be right as well
        for q in sorted(lem):
            for s2 in by.get(q, ()):
                if id(s2) not in done and s2.prop != 'PXX':
                    done.add(id(s2))
                    if not used:
                        chk.rule('lemma', 'functions that the specifications refer to compute what their own specification says', floor=0)
                    used.add(q)
                    todo.append((s2, [], 'lemma'))
        for part, v, d, where in res:
            if r == rule and s.prop != prop and not any(a in part for a in also):
                continue
            if r == 'lemma' and part.startswith('raises'):
                continue
            key = f'{short}:{part}'
            chk.ok(r, key)
            if v == 'differ':
                chk.bad(r, key, d, where)
            elif v == 'unknown':
                chk.unsure(r, key, d)
    if nl:
        chk.count('lemmas', nl)
    chk.count('specifications', n)
