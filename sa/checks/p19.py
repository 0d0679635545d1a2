"""Every specification that says which input is refused: the conditions under which the function raises
are brought to canonical form and compared with the conditions that are specified; the exception class
must be the documented one."""
import ast
import os
from ..equiv import load_specs, check_spec

SPECS = True


def run(prog, chk):
    chk.rule('raises', 'the documented exception is raised under exactly the specified condition', floor=20)
    specs = load_specs(prog)
    opaque = {s.target for s in specs if s.opts.get('contract')}
    n = 0
    for s in specs:
        if not any(isinstance(x, (ast.Raise, ast.Assert)) for x in ast.walk(s.node)) or s.prop == 'PXX':
            continue
        n += 1
        short = s.target.replace('marxs.', '', 1)
        try:
            res = list(check_spec(prog, s, opaque))
        except Exception as e:
            if os.environ.get('SPEC_STRICT'):
                raise
            chk.unsure('raises', short, f'not analysable: {type(e).__name__}')
            continue
        for part, v, d, where in res:
            if 'raise' not in part and not (part == 'return' and v == 'unknown'):
                continue
            key = f'{short}:{part}'
            if part != 'return':
                chk.ok('raises', key)
            if v == 'differ':
                chk.bad('raises', key, d, where)
            elif v == 'unknown':
                chk.unsure('raises', key, d)
    chk.count('specifications', n)
