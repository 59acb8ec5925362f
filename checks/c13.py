"""C13: phonon baths enter the master equation as in MasterEq.tla; zero coupling changes nothing."""
import numpy as np

from checks import firstorder as fo
from harness import system, tlc
from harness.runner import Skip

PROPERTY = 'C13'
ASSUMPTIONS = [
    'the stationary state is unique (other cases are counted as undetermined)',
    'in spin-resolved indexing the phonon couplings conserve spin',
    'principal values are accurate to the 1e-6 the implementation requests from QUADPACK',
]
TIME = {'quick': 300, 'thorough': 2400}


def cases(tier, rng):
    out = fo.bath_cases(tier, rng, 32 if tier == 'quick' else 260)
    for c in out:
        if rng.random() < 0.15:
            c['kind'] = 'uncoupled-' + fo.apr_of(c)
            if rng.random() < 0.5:
                c['velph'] = []
            else:
                c['velph'] = [r[:3] + [0.] for r in c['velph']]
    return out


def prepare(cases, info):
    tlc.run('MasterEqMC', workers=8)
    fo.preload(cases)


def run(c, ctx):
    s, eq, p, cf, rho, gap = fo.solved(dict(c, copy=True))
    tol = fo.tolerance(c)
    fail = fo.check_state(s, eq, cf, rho, tol)
    fail += fo.check_currents(s, eq, p, c, rho, tol)
    f, n = fo.check_kernel(s, eq, c, tol)
    fail += f
    n += len(cf['pairs']) + 2 * p.nl
    if c['kind'].startswith('uncoupled'):
        d = {k: v for k, v in c.items() if k != 'nbaths'}
        q = system.build(d)
        if c.get('fockrem'):
            q.remove_fock_states(list(c['fockrem']))
        fo.restrict(q, d)
        q.solve()
        rho2 = system.density_matrix(q)
        if abs(rho - rho2).max() > 1e-9 / min(gap, 1.):
            fail.append('a bath without coupling changes the density matrix by %g' % abs(rho - rho2).max())
        scale = eq.Cterm.max() + 1e-300
        for k in ('current', 'energy_current'):
            if abs(getattr(s, k) - getattr(q, k)).max() > scale * 1e-9 / min(gap, 1.):
                fail.append('a bath without coupling changes %s' % k)
    return {'fail': fail, 'n': n, 'res': eq.residual(rho)[0], 'itype': c['itype_ph'] * 10 + c['itype']}
