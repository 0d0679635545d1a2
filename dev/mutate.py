#!/usr/bin/env python3
"""Development aid (no registered check uses it): apply textual edits to a scratch copy of the
sources and show which checks fire.   mutate.py [P01,P02 | all] [pattern]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def load():
    """edits.txt: blocks  '### BAD|OK name [P..]' / file / <<<< old ==== new >>>>"""
    out = []
    cur = None
    for line in open(os.path.join(HERE, 'edits.txt'), encoding='utf8'):
        if line.startswith('### '):
            k, name, *props = line[4:].split()
            cur = {'kind': k, 'name': name, 'props': props, 'edits': []}
            out.append(cur)
            state = None
        elif line.startswith('@ '):
            cur['edits'].append([line[2:].strip(), '', ''])
            state = 1
        elif line.startswith('===='):
            state = 2
        elif state in (1, 2) and cur['edits']:
            cur['edits'][-1][state] += line
    return out


def copy_src(dst):
    for d, dirs, files in os.walk('/repo/marxs'):
        dirs[:] = [x for x in dirs if x not in ('__pycache__', 'data', 'tests', 'test')]
        o = os.path.join(dst, os.path.relpath(d, '/repo'))
        os.makedirs(o, exist_ok=True)
        for f in files:
            if f.endswith('.py'):
                shutil.copy(os.path.join(d, f), o)


def one(m, props):
    tmp = tempfile.mkdtemp(prefix='mut')
    try:
        copy_src(tmp)
        for f, old, new in m['edits']:
            p = os.path.join(tmp, 'marxs', f)
            s = open(p, encoding='utf8').read()
            old, new = old.rstrip('\n'), new.rstrip('\n')
            if s.count(old) < 1:
                return m, {'ERR': f'{f}: text not found: {old[:60]!r}'}
            s = s.replace(old, new, 1)
            compile(s, p, 'exec')
            open(p, 'w', encoding='utf8').write(s)
        v = os.path.join(tmp, 'v')
        os.makedirs(v)
        shutil.copytree(os.path.join(VER, 'sa'), os.path.join(v, 'sa'), ignore=shutil.ignore_patterns('__pycache__'))
        for x in ('run.py', 'known_findings.txt'):
            if os.path.exists(os.path.join(VER, x)):
                shutil.copy(os.path.join(VER, x), v)
        res = {}
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(v, 'run.py'), p], env=dict(os.environ, MARXS_SRC=tmp),
                               capture_output=True, text=True)
            res[p] = (r.returncode, r.stdout.strip().split('\n')[0] + (r.stderr[-300:] if r.returncode > 1 else ''))
        return m, res
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    allp = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VER, 'sa', 'checks')) if f.startswith('p') and f.endswith('.py'))
    sel = sys.argv[1] if len(sys.argv) > 1 else 'all'
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    ms = [m for m in load() if pat in m['name']]
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for m in ms:
            props = allp if m['kind'] == 'OK' or sel == 'all' else [p for p in m['props']]
            if sel != 'all':
                props = [p for p in props if p in sel.split(',')]
            if props:
                jobs.append(ex.submit(one, m, props))
        good = bad = 0
        for j in jobs:
            m, res = j.result()
            if 'ERR' in res:
                print('!!', m['name'], res['ERR']); bad += 1
                continue
            fired = [p for p, (rc, _) in res.items() if rc == 1]
            broken = [p for p, (rc, _) in res.items() if rc not in (0, 1)]
            fine = (not fired and not broken) if m['kind'] == 'OK' else (not broken and all(p in fired for p in m['props'] if p in res) and fired)
            good += bool(fine); bad += not fine
            if not fine or '-v' in sys.argv:
                print('  ' if fine else '**', m['kind'], m['name'], 'expected', m['props'], 'fired', fired, 'broken', broken)
                for p in fired + broken:
                    print('        ', p, res[p][1][:260])
        print(good, 'as expected,', bad, 'not')
