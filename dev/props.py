#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, text, why, files, mech, over=('inputs', 'configurations'), state=(), observe=(), technique='', note='',
         claim=True):
    PROPS.append(dict(
        p={'id': id, 'title': title, 'statement': statement,
           'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
           'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                       'state': [{'name': n, 'meaning': m} for n, m in state],
                       'observe_at': list(observe), 'hook_needed': None}},
        technique=technique, note=note, claim=claim))


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


VF = 'value-flow terms (abstract interpretation of the source over symbolic photon lists)'
SPEC = 'canonical value numbering of the source compared with a separately written specification'
TRUST = ('Decides from the source what value reaches each output on every path; assumes documented behaviour of numpy/astropy calls. '
         'Constructs the analysis cannot interpret are counted as undecided in the evidence and are not reported.')
exec(open(os.path.join(HOME, 'dev', 'proptext.py'), encoding='utf8').read())


def main():
    with open(os.path.join(HOME, 'properties.jsonl'), 'w', encoding='utf8') as f:
        for x in PROPS:
            assert len(x['p']['title']) <= 80, x['p']['title']
            f.write(json.dumps(x['p']) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0 if sys.version_info >= (3, 9) else 1)"',
         'checks': [{'property': x['p']['id'], 'quick_cmd': f"python3 run.py {x['p']['id']} quick",
                     'thorough_cmd': f"python3 run.py {x['p']['id']} thorough",
                     'technique': x['technique'], 'level': 'other', 'level_note': x['note']} for x in PROPS if x['claim']],
         'not_applicable': NA,
         'notes': 'All checks are static: they parse /repo/marxs on every run (1-10 s each) and never import or run it. '
                  'See DESIGN.md.'}
    json.dump(m, open(os.path.join(HOME, 'MANIFEST.json'), 'w'), indent=1)


main()
