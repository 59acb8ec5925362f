"""C08: currents are the functionals of the density matrix of MasterEq.tla, and they balance."""
import numpy as np

from checks import firstorder as fo
from harness import system, tlc

PROPERTY = 'C08'
ASSUMPTIONS = [
    'the stationary state is unique (other cases are counted as undetermined)',
    'principal values are accurate to the 1e-6 the implementation requests from QUADPACK',
]
TIME = {'quick': 300, 'thorough': 2400}


def cases(tier, rng):
    out = fo.lead_cases(tier, rng, 30 if tier == 'quick' else 240)
    out += fo.bath_cases(tier, rng, 8 if tier == 'quick' else 60)
    return out


def prepare(cases, info):
    tlc.run('MasterEqMC', workers=8)
    fo.preload(cases)


def run(c, ctx):
    s, eq, p, cf, rho, gap = fo.solved(c)
    tol = fo.tolerance(c)
    fail = fo.check_currents(s, eq, p, c, rho, tol)
    f, k = fo.check_phi1(s, eq, p, cf, c, rho, tol)
    return {'fail': fail + f, 'n': 3 * p.nl + k}
