"""Collecting obligations, reporting violations, known findings, evidence."""
import json
import os
import sys
import time

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """the analysis itself cannot give an answer"""


class Check:
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.obl = {}            # rule -> list of (construct, where, verdict)
        self.viol = {}           # key -> dict
        self.undecided = {}
        self.counts = {}
        self.rules = {}
        self.floors = {}
        self.t0 = time.time()
        self.notes = []

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floors[name] = floor
        self.obl.setdefault(name, set())

    def ok(self, rule, construct, where=None):
        self.obl.setdefault(rule, set()).add(str(construct))

    def bad(self, rule, construct, msg, where=None):
        self.obl.setdefault(rule, set()).add(str(construct))
        key = f'{rule}:{construct}'
        if key in self.viol:
            return
        self.viol[key] = {'rule': rule, 'construct': str(construct), 'message': msg,
                          'where': ':'.join(map(str, where[:2])) + (f' ({where[2]})' if len(where) > 2 else '')
                          if where else ''}

    def unsure(self, rule, construct, why=''):
        self.undecided[f'{rule}:{construct}'] = why

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


def load_known():
    p = os.path.join(HOME, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=P01 key=<rule:construct> value=<digest shown in the message> :: text
                head, _, text = line[7:].partition(' :: ')
                f = dict(x.split('=', 1) for x in head.split(' ', 1))
                key, _, value = f['key'].partition(' value=')
                out.append((f['property'], key.strip(), value.strip(), text))
    return out


def known_in(chk):
    return {k: t for p, k, value, t in load_known() if p == chk.prop and (
        not value or f'[{value}]' in chk.viol.get(k, {}).get('message', ''))}


def finish(chk, prog, level='other', explanation=''):
    short = {r: (len(v), chk.floors[r]) for r, v in chk.obl.items() if len(v) < chk.floors.get(r, 1)}
    known = known_in(chk)
    new = {k: v for k, v in chk.viol.items() if k not in known}
    EV = os.environ.get('EVIDENCE_DIR') or os.path.join(HOME, 'evidence')
    os.makedirs(EV, exist_ok=True)
    cov = {'explanation': explanation,
           'rules': {r: {'text': t, 'obligations': len(chk.obl.get(r, ())), 'floor': chk.floors[r]}
                     for r, t in chk.rules.items()},
           'obligations_total': sum(len(v) for v in chk.obl.values()),
           'modules_parsed': len(prog.modules), 'classes': len(prog.classes), 'functions': len(prog.funcs),
           'source_digest': prog.digest.hexdigest()[:16],
           'undecided': len(chk.undecided),
           'undecided_constructs': dict(sorted(chk.undecided.items())[:60]),
           'known_findings': sorted(k for k in chk.viol if k in known)}
    cov.update(chk.counts)
    samples = {}
    for r, v in chk.obl.items():
        samples[r] = sorted(v)[:12]
    cov['constructs'] = samples
    ev = {'property': chk.prop, 'tier': chk.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': level, 'coverage': cov, 'wall_s': round(time.time() - chk.t0, 3),
          'violations': [dict(v, key=k) for k, v in sorted(new.items())]}
    path = os.path.join(EV, chk.prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in sorted(chk.viol):
        if k in known:
            print(f'KNOWN-FINDING: property={chk.prop} {k} {known[k]}')
    if new:
        rp = os.path.join(EV, chk.prop + '.replay.txt')
        with open(rp, 'w') as f:
            for k, v in sorted(new.items()):
                f.write(f"{v['where']}: [{v['rule']}] {v['construct']}: {v['message']}\n")
        for k, v in sorted(new.items()):
            print(f"{v['where']}: [{v['rule']}] {v['construct']}: {v['message']}")
        print(f'VIOLATION property={chk.prop} replay={rp}')
        return 1
    if short:
        print(f'ANALYSIS-BROKEN property={chk.prop} rules below their confirmed instance count: {short}')
        return 2
    n = cov['obligations_total']
    print(f'OK property={chk.prop} {n} obligations, {len(chk.undecided)} undecided, {ev["wall_s"]}s')
    return 0
