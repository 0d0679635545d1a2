"""Value-flow terms of each specified function are brought to a canonical form (polynomial
normal form, boolean normal form, inlined helpers, case split on conditions) and compared with
the canonical form of the specification written from the documented mathematics."""
from ..speccheck import run_specs

SPECS = True


def run(prog, chk):
    run_specs(prog, chk, chk.prop, floor=1)
