#!/usr/bin/env python3
"""functions of the code base and whether a specification names them"""
import sys, os, ast
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True; sys.setrecursionlimit(10000)
from sa.program import Program
from sa.equiv import load_specs
prog = Program(specs=True)
t = {s.target for s in load_specs(prog)}
by = {}
for q, (node, mod, ci) in prog.funcs.items():
    if mod.name.startswith('spec') or '<locals>' in q: continue
    n = sum(1 for x in ast.walk(node) if isinstance(x, ast.stmt)) - 1
    by.setdefault(mod.rel(), []).append((q, n, q in t))
a = sys.argv[1] if len(sys.argv) > 1 else ''
for m, l in sorted(by.items()):
    if a not in m: continue
    miss = [(q, n) for q, n, s in l if not s]
    print(m, f'{sum(n for _, n, s in l if s)}/{sum(n for _, n, _ in l)} statements', ' '.join(f'{q.replace(m[:-3].replace("/", "."), "")[1:]}({n})' for q, n in miss) if '-v' in sys.argv or a else '')
