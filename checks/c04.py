"""C04: tunneling and phonon coupling matrices, in the Fock basis and rotated, against Fock.tla."""
import numpy as np

from harness import fock, system

PROPERTY = 'C04'
ASSUMPTIONS = ['numbers of single-particle states up to 4 (quick) or 6 (thorough)',
               'in spin-resolved indexing the first half of the leads couples to spin up, the second half to spin '
               'down, and phonon couplings conserve spin']
TIME = {'quick': 300, 'thorough': 2400}


def cases(tier, rng):
    out = []
    for i in range(220 if tier == 'quick' else 2200):
        N = int(rng.choice([1, 2, 2, 3, 4, 4] if tier == 'quick' else [1, 2, 3, 4, 4, 5, 6]))
        ix = str(rng.choice(['Lin', 'charge', 'charge', 'sz', 'ssq'])) if N % 2 == 0 else \
            str(rng.choice(['Lin', 'charge']))
        real = bool(rng.random() < 0.25)
        nl = int(rng.choice([1, 2, 3]))
        spin = ix if ix in ('sz', 'ssq') else None
        c = system.random_system(rng, N, nl if spin != 'ssq' else 2 * nl, 'Pauli', ix, itype=1, real=real)
        if spin == 'ssq' and rng.random() < 0.5:
            # any amplitudes rotate, symmetric or not
            c['tleads'] = system.random_tunnel(rng, N, c['nleads'], real, spin='sz')
        if rng.random() < 0.3:
            c['tleads'] = [r for r in c['tleads'] if rng.random() < 0.5]
        c['mtype_leads'] = 'float' if real and rng.random() < 0.5 else 'complex'
        if real and rng.random() < 0.5:
            c['mtype_qd'] = 'float'
        nb = int(rng.choice([0, 1, 2]))
        if nb:
            v, t, band = system.random_baths(rng, N, nb, real, spin=spin, hermitian=rng.random() < 0.3)
            c.update(nbaths=nb, velph=v, tlst_ph=t, dband_ph=band)
        if ix != 'ssq' and N > 1 and rng.random() < 0.35:
            n = 2 ** N
            c['fockrem'] = sorted(int(x) for x in rng.choice(n, int(rng.integers(1, n // 2)), replace=False))
        c['kind'] = ('phonon-' if nb else 'lead-') + ix
        out.append(c)
    return out


def prepare(cases, info):
    return fock.tables({c['nsingle'] for c in cases}, info)


def compare(name, got, want, tol=1e-12):
    got = np.asarray(got)
    if got.shape != want.shape:
        return ['%s has the shape %s, expected %s' % (name, got.shape, want.shape)]
    if not want.size:
        return []
    scale = abs(want).max() + 1e-300
    d = abs(got - want)
    if not np.isfinite(got).all() or d.max() > tol * max(scale, 1e-3):
        i = np.unravel_index(d.argmax(), d.shape)
        return ['%s%s is %s, expected %s' % (name, list(int(x) for x in i), got[i], want[i])]
    return []


def run(c, ctx):
    F = ctx[c['nsingle']]
    s = system.build(c)
    if c.get('fockrem'):
        s.remove_fock_states(list(c['fockrem']))
    L = fock.lin(s)
    T0 = F.tunneling(c['nleads'], system.todict(c['tleads']))[:, L][:, :, L]
    fail = compare('Tba0', s.leads.Tba0, T0)
    ph = bool(c.get('nbaths'))
    if ph:
        V0 = F.phonon(c['nbaths'], system.todict(c['velph']))[:, L][:, :, L]
        fail += compare('Vbbp0', s.baths.Vbbp0, V0)
    # no rotation: the matrices stay in the Fock basis
    s.solve(rotateq=False, masterq=False)
    fail += compare('unrotated Tba', s.Tba, T0)
    if ph:
        fail += compare('unrotated Vbbp', s.Vbbp, V0)
    for attempt in range(2):
        s.solve(masterq=False)
        W = fock.eigenvectors(s)[L]
        fail += compare('Tba', s.Tba, np.array([W.conj().T @ x @ W for x in T0]), 1e-10)
        fail += compare('Tba0', s.leads.Tba0, T0)
        if ph:
            fail += compare('Vbbp', s.Vbbp, np.array([W.conj().T @ x @ W for x in V0]), 1e-10)
            fail += compare('Vbbp0', s.baths.Vbbp0, V0)
    s.solve(rotateq=False, masterq=False)
    return {'fail': fail, 'n': 3 * (T0.size + (V0.size if ph else 0))}
