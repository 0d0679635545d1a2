#!/usr/bin/env python3
"""source without docstrings: show.py file"""
import ast, sys
for p in sys.argv[1:]:
    t = ast.parse(open('/repo/marxs/' + p).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    print('#', p); print(ast.unparse(t))
