"""P12: settings given on construction are used.  Besides the specified constructors: every constructor
of a derived class runs the constructor of the class it derives from, so that common settings (name,
geometry, columns, ...) are taken over and the remaining keyword arguments are checked there."""
import ast

from ..speccheck import run_specs

SPECS = True
# constructors that take a configuration dictionary only and have no common settings
EXEMPT = {'marxs.missions.AXIS.AXIS.MirrorGeometricScaling', 'marxs.missions.lynx.mirror.MetaShellEfficiency'}


def run(prog, chk):
    run_specs(prog, chk, chk.prop, floor=1)
    chk.rule('constructor', 'constructors run the constructor of the class they derive from', floor=20)
    for c in prog.classes.values():
        fn = c.methods.get('__init__')
        if fn is None or not c.qual.startswith('marxs.') or '.tests.' in c.qual or c.qual in EXEMPT:
            continue
        bases = [k for k in prog.mro(c)[1:] if '__init__' in k.methods]
        if not bases:
            continue
        chk.count('constructors')
        if reaches(prog, c, fn, c.mod):
            chk.ok('constructor', c.qual[6:])
        else:
            chk.bad('constructor', c.qual[6:], f'the constructor never runs {bases[0].qual}.__init__: settings handled there are lost',
                    (c.mod.path, fn.lineno))


def reaches(prog, c, fn, mod, depth=0, seen=None):
    """a call of a base class' constructor in the function or in what it calls"""
    seen = set() if seen is None else seen
    if fn in seen or depth > 4:
        return False
    seen.add(fn)
    for x in ast.walk(fn):
        if not isinstance(x, ast.Call):
            continue
        f = x.func
        if isinstance(f, ast.Attribute) and f.attr == '__init__':
            return True
        if any(isinstance(a, ast.Attribute) and a.attr == '__init__' for a in ast.walk(f)):
            return True         # getattr and the like
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self':
            m = prog.find_method(c, f.attr)
            if m and m[1] is not None and reaches(prog, c, m[1], m[0].mod, depth + 1, seen):
                return True
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and ast.unparse(f.value.func) == 'super':
            for k in prog.mro(c)[1:]:
                if f.attr in k.methods and reaches(prog, c, k.methods[f.attr], k.mod, depth + 1, seen):
                    return True
        elif isinstance(f, ast.Name):
            e = prog.expr_to_entity(f, mod)
            if e[0] == 'func' and reaches(prog, c, e[1], e[2], depth + 1, seen):
                return True
    return False
