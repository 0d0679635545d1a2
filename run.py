#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]   decide one property from /repo's source"""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    from sa.program import Program
    from sa.report import Check, finish
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        mod = importlib.import_module('sa.checks.' + prop.lower())
    except ModuleNotFoundError:
        mod = importlib.import_module('sa.checks.specs')     # specifications only
    chk = Check(prop, tier)
    prog = Program(specs=True)
    mod.run(prog, chk)
    return finish(chk, prog, explanation=mod.__doc__.strip())


def wrap():
    try:
        rc.append(main())
    except Exception:
        import traceback
        traceback.print_exc()
        rc.append(2)


if __name__ == '__main__':
    rc = []
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=wrap)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
