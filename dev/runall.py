#!/usr/bin/env python3
"""all registered checks in one process on MARXS_SRC; prints JSON {prop: {rc, viol: {key: msg}, undecided: n}}"""
import sys, os, threading, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
out = {}
def main():
    from sa.program import Program
    from sa.report import Check, known_in
    props = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
    sel = sys.argv[1].split(',') if len(sys.argv) > 1 else props
    prog = Program(specs=True)
    for p in sel:
        try:
            mod = importlib.import_module('sa.checks.' + p.lower())
        except ModuleNotFoundError:
            mod = importlib.import_module('sa.checks.specs')
        chk = Check(p)
        try:
            mod.run(prog, chk)
            known = known_in(chk)
            low = [r for r, f in chk.floors.items() if len(chk.obl.get(r, ())) < f]
            out[p] = {'viol': {k: v['message'][:300] for k, v in chk.viol.items() if k not in known}, 'und': {k: str(v)[:200] for k, v in chk.undecided.items()}, 'low': low}
        except Exception as e:
            import traceback
            out[p] = {'viol': {}, 'und': {}, 'low': ['EXC ' + traceback.format_exc()[-400:]]}
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
print(json.dumps(out))
