#!/usr/bin/env python3
"""spec.py [pattern] [-v]: verdicts of all specifications on MARXS_SRC or /repo"""
import sys, os, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
def main():
    from sa.program import Program
    from sa.equiv import load_specs, check_spec
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    prog = Program(specs=True)
    specs = load_specs(prog)
    opaque = {s.target for s in specs if s.opts.get('contract')}
    cnt = {}
    for s in specs:
        if pat not in s.target and pat not in str(s.prop) and pat not in s.mod.name: continue
        t0 = time.time()
        for part, v, d, w in check_spec(prog, s, opaque):
            cnt[v] = cnt.get(v, 0) + 1
            if v != 'equal' or '-v' in sys.argv:
                print(v.upper(), s.prop, s.target, part, '::', d)
        if time.time() - t0 > 2: print('slow', s.target, time.time() - t0)
    print(cnt)
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
