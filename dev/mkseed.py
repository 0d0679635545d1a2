#!/usr/bin/env python3
"""Build and confirm planted bugs from dev/seeds.txt.   mkseed.py [id pattern] [--force]
blocks: '## id PROP' / '# needs: ..' / '# breaks: ..' / '@ file' old ==== new ... / '$ demo' python code"""
import os, re, shutil, subprocess, sys, json, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def load():
    out, cur, st = [], None, None
    for line in open(os.path.join(HERE, 'seeds.txt'), encoding='utf8'):
        if line.startswith('## '):
            i, p = line[3:].split()
            cur = {'id': i, 'prop': p, 'edits': [], 'demo': '', 'needs': '', 'breaks': ''}
            out.append(cur); st = None
        elif line.startswith('# needs: '): cur['needs'] = line[9:].strip()
        elif line.startswith('# breaks: '): cur['breaks'] = line[10:].strip()
        elif line.startswith('@ '): cur['edits'].append([line[2:].strip(), '', '']); st = 1
        elif line.startswith('===='): st = 2
        elif line.startswith('$ demo'): st = 'demo'
        elif st in (1, 2): cur['edits'][-1][st] += line
        elif st == 'demo': cur['demo'] += line
    return out


def build(s):
    msg = []
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        r = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        d = os.path.join(VER, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH="$PWD"\n'
                                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, env=ENV, capture_output=True, text=True)
        if a.returncode: msg.append('DEMO FAILS ON CLEAN ' + a.stderr[-300:])
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p, encoding='utf8').read()
            old, new = old.rstrip('\n'), new.rstrip('\n')
            if t.count(old) != 1: return s, [f'text matches {t.count(old)} times: {old[:70]!r}']
            open(p, 'w', encoding='utf8').write(t.replace(old, new))
        df = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(df)
        b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, env=ENV, capture_output=True, text=True)
        if b.returncode == 0: msg.append('DEMO PASSES WITH PATCH')
        else: msg.append('demo: ' + b.stderr.strip().split('\n')[-1][:110])
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-n', '4', '-p', 'no:cacheprovider', '--disable-warnings', '--tb=no',
                            '--continue-on-collection-errors', '-x' if 0 else '-q', '-rfE'], cwd=r, env=ENV, capture_output=True, text=True)
        bad = set(re.findall(r'^(?:FAILED|ERROR) (\S+)', t.stdout, re.M))
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        nb = {x for x in bad if x.split('[')[0].replace('/', '.').replace('.py::', '::') in {y.split('[')[0] for y in st}} - baseline()
        for k in range(4):       # some tests fail by chance
            if nb:
                t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--disable-warnings', '--tb=no', '-rfE', *sorted(nb)], cwd=r, env=ENV, capture_output=True, text=True)
                nb &= set(re.findall(r'^(?:FAILED|ERROR) (\S+)', t.stdout, re.M))
        if nb: msg.append(f'TESTS FAIL {sorted(nb)[:4]}')
        fired = []
        for p in [s['prop']]:
            x = subprocess.run([sys.executable, os.path.join(VER, 'run.py'), p], env=dict(ENV, MARXS_SRC=r, EVIDENCE_DIR=tmp), capture_output=True, text=True)
            msg.append(f'{p}: rc {x.returncode} {x.stdout.strip().splitlines()[0][:160] if x.stdout else x.stderr[-200:]}')
            if x.returncode != 1: msg.append('MISSED')
        return s, msg
    finally:
        shutil.rmtree(tmp)


def baseline():
    p = '/tmp/base_fail.json'
    if not os.path.exists(p):
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-n', '6', '-p', 'no:cacheprovider', '--disable-warnings', '--tb=no',
                            '--continue-on-collection-errors', '-rfE'], cwd='/repo', env=ENV, capture_output=True, text=True)
        json.dump(re.findall(r'^(?:FAILED|ERROR) (\S+)', t.stdout, re.M), open(p, 'w'))
    return set(json.load(open(p)))


if __name__ == '__main__':
    pat = [a for a in sys.argv[1:] if not a.startswith('-')]
    ss = [s for s in load() if not pat or any(p in s['id'] for p in pat)]
    if '--force' not in sys.argv:
        ss = [s for s in ss if not os.path.exists(os.path.join(VER, 'seeded', s['id'], 'patch.diff'))]
    print('baseline failures', len(baseline()))
    with ThreadPoolExecutor(2) as ex:
        for s, msg in ex.map(build, ss):
            print(s['id'], s['prop'], '|', ' | '.join(msg), flush=True)
