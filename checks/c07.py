"""C07: the reported density matrix solves the first-order master equation of MasterEq.tla."""
import numpy as np

from checks import firstorder as fo
from harness import tlc

PROPERTY = 'C07'
ASSUMPTIONS = [
    'the stationary state is unique (cases with a nearly degenerate null space are counted as undetermined)',
    'principal values are accurate to the 1e-6 the implementation requests from QUADPACK',
    'scalar functions (Fermi, digamma, principal value) are evaluated by the harness from their definitions',
]
TIME = {'quick': 300, 'thorough': 2400}


def cases(tier, rng):
    out = fo.lead_cases(tier, rng, 40 if tier == 'quick' else 300)
    for c in out:
        c['copy'] = True
        if rng.random() < 0.2:
            c.update(mfreeq=True, symq=True)
    return out


def prepare(cases, info):
    # the laws of the equations, exhaustively on small configurations
    tlc.run('MasterEqMC', workers=8)
    fo.preload(cases)


def run(c, ctx):
    s, eq, p, cf, rho, gap = fo.solved(c)
    tol = fo.tolerance(c)
    fail = fo.check_state(s, eq, cf, rho, tol)
    f, k = fo.check_kernel(s, eq, c, fo.tolerance(dict(c, mfreeq=False)))
    fail += f
    return {'fail': fail, 'n': len(cf['pairs']) + k, 'res': eq.residual(rho)[0], 'gap': gap, 'itype': c['itype']}
