#!/usr/bin/env python3
"""regenerate spec/effects.json (review the difference: it says which functions may change their arguments)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa.program import Program
from sa.checks.p11 import table
eff, tab = table(Program())
out = {q: sorted(k for k in e if not k.startswith('shared ')) for q, e in sorted(tab.items())}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'effects.json')
open(p, 'w').write('{"functions": {\n' + ',\n'.join(f' {json.dumps(q)}: {json.dumps(v)}' for q, v in out.items()) + '\n}}\n')
