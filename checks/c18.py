"""C18: thermodynamics.  Exact stationary states, currents and heat of small networks come from Thermo.tla (integer rates,
spanning trees), whose laws TLC checks over all small networks; the same laws are then asked of solutions of random
systems, where the equation that TLC generates from MasterEq.tla tells which ones are determined."""
import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from checks import firstorder as fo
from harness import system, tlc
from harness.runner import Skip

PROPERTY = 'C18'
ASSUMPTIONS = ['exact networks: up to 4 states, 3 leads, 1 bath; Fermi and Bose functions at multiples of ln 2',
               'random systems: up to 4 single-particle states, 4 leads, 2 baths at one common temperature',
               'bands wider than every transition energy']
TIME = {'quick': 300, 'thorough': 2400}
MC = 'SPECIFICATION Spec\nCONSTANT Big = %s\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'
GEN = 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'
LN2 = np.log(2.)


# ------------------------------------------------------------------ cases
def phase(rng):
    return np.exp(2j * np.pi * rng.random())


def network(rng, r):
    """A many-body system with the rates of the network r, in units of its own."""
    m = r['m']
    n, nl, nb = len(m['q']), len(m['leads']), len(m['baths'])
    T0, g0 = 0.3 + rng.random(), 10 ** rng.uniform(-4, -1)
    off = float(rng.normal())           # energy of nothing
    E = [T0 * LN2 * e + off for e in m['e']]
    T = np.zeros((nl, n, n), complex)
    for l, L in enumerate(m['leads']):
        for a in range(n):
            for b in range(n):
                if L['g'][a][b]:
                    T[l, b, a] = np.sqrt(g0 * L['g'][a][b] / (2 * np.pi)) * phase(rng)
                    T[l, a, b] = T[l, b, a].conj()
    c = dict(kind='exact', Ea=E, Tba=system.fromarray(T),
             mulst=[T0 * LN2 * L['mu'] for L in m['leads']], tlst=[T0 / L['b'] for L in m['leads']],
             dband=[[-40 * (1 + rng.random()), 40 * (1 + rng.random())] for _ in m['leads']],
             itype=int(rng.integers(0, 4)), symq=bool(rng.random() < .7), norm_row=int(rng.integers(0, n)),
             kerntype='Pauli', indexing='charge', r=r, unit=[g0, T0 * LN2])
    shift = int(rng.integers(-1, 4)) if rng.random() < .4 else 0
    c['Na'] = [x + shift for x in m['q']]
    if nb:
        V = np.zeros((nb, n, n), complex)
        for k, B in enumerate(m['baths']):
            for a in range(n):
                for b in range(a):
                    if B['v'][a][b]:
                        x = rng.random()        # the two halves of one strength
                        V[k, a, b] = np.sqrt(2 * g0 * B['v'][a][b] * x / (2 * np.pi)) * phase(rng)
                        V[k, b, a] = np.sqrt(2 * g0 * B['v'][a][b] * (1 - x) / (2 * np.pi)) * phase(rng)
        c.update(nbaths=nb, Vbbp=system.fromarray(V), tlst_ph=[T0 / B['b'] for B in m['baths']],
                 dband_ph=[[1e-5, 40.] for _ in m['baths']], itype_ph=0 if rng.random() < .1 else 2)
    # without coherences all approaches are the rate equation
    close = any(a != b and m['q'][a] == m['q'][b] and m['e'][a] == m['e'][b] for a in range(n) for b in range(n))
    if not close:
        c['kerntype'] = system.FIRST[int(rng.integers(0, 4))]
    c['kerntype'] = fo.py(c['kerntype'], rng)
    return c


def dot(rng, i):
    N = int(rng.choice([1, 2, 2, 3, 3, 4]))
    ix = str(rng.choice(['Lin', 'charge', 'charge', 'sz', 'ssq'])) if N % 2 == 0 else 'charge'
    nl = int(rng.choice([2, 4])) if ix in ('sz', 'ssq') else int(rng.choice([1, 2, 2, 2, 3, 4]))
    kern = 'Lindblad' if i % 3 == 2 else 'Pauli'
    c = system.random_system(rng, N, nl, fo.py(kern, rng), ix, real=bool(rng.random() < .4))
    c.update(kind='dot', symq=bool(rng.random() < .7), keep=None, coh=None)
    c['dband'] = [[-30 - 20 * rng.random(), 30 + 20 * rng.random()] for _ in range(nl)]
    if ix == 'ssq':
        c['dband'] = c['dband'][:nl // 2] * 2
    if rng.random() < .1:
        c['keep'] = float(rng.uniform(.3, 1))
    if kern == 'Lindblad' and rng.random() < .15:
        c['coh'] = float(rng.random())
    if rng.random() < .4:
        v, t, b = system.random_baths(rng, N, int(rng.integers(1, 3)), c.get('real', False), spin=ix if ix in ('sz', 'ssq') else None)
        c.update(nbaths=len(t), velph=v, tlst_ph=[t[0]] * len(t), dband_ph=[[1e-4, 60.]] * len(t), itype_ph=0 if rng.random() < .1 and N < 4 else 2)
    what = rng.random()
    scale = float(rng.choice([1., 1., 4., .2]))
    c['mulst'] = [scale * x for x in c['mulst']]
    if what < .7:
        c['tlst'] = [c['tlst'][0]] * nl
        if c.get('nbaths'):
            c['tlst_ph'] = [c['tlst'][0]] * c['nbaths']
        if what < .35:
            c['mulst'] = [c['mulst'][0]] * nl
    return c


def cases(tier, rng):
    runs, num, depth = (1, 8, 150) if tier == 'quick' else (6, 12, 400)
    seed = int(rng.integers(1, 10 ** 6))

    def one(i):
        return tlc.run('ThermoGen', cfg=GEN % depth, outputs=['thermo.ndjson'], timeout=900,
                       args=['-simulate', 'num=%d' % num, '-depth', str(depth + 3), '-seed', str(seed * 10 + i)]).data['thermo.ndjson']
    with ThreadPoolExecutor(6) as ex:
        rows = [r for x in ex.map(one, range(runs)) for r in x]
    out = [network(rng, r) for r in rows]
    return out + [dot(rng, i) for i in range(900 if tier == 'quick' else 6000)]


def prepare(cases, info):
    if any(c['kind'] == 'exact' for c in cases):
        tlc.run('ThermoMC', cfg=MC % ('TRUE' if info.get('tier') == 'thorough' else 'FALSE'), workers=8, timeout=1500)
    fo.preload([c for c in cases if c['kind'] == 'dot'])
    return {}


# ------------------------------------------------------------------ exact networks
def exact(c, ctx):
    r, (g0, e0) = c['r'], c['unit']
    n = len(c['Ea'])
    s = system.build(c)
    if fo.apr_of(c) != 'Pauli':
        s.solve(qdq=False, masterq=False)
        s.remove_coherences(1e-9)
    s.solve(qdq=False)
    w = np.array(r['occ'], float)
    tot = w.sum()
    fail = []
    if not s.success:
        return {'fail': ['no solution although the network is connected'], 'n': 1}
    rho = system.density_matrix(s)
    if abs(np.diag(rho) - w / tot).max() > 1e-8:
        fail.append('occupations are %s, exactly %s' % (np.diag(rho).real, w / tot))
    if abs(rho - np.diag(np.diag(rho))).max() != 0:
        fail.append('coherences appear in %s' % rho)
    unit = g0 / 30 / tot
    quad = fo.uses_quad(c['kerntype'], c['itype'], c.get('nbaths'), c.get('itype_ph', 0))
    tol = 1e-8 * g0 * (1 + quad * 100)
    for name, got, want in (('current', s.current, np.array(r['current']) * unit),
                            ('energy_current', s.energy_current, np.array(r['energy']) * unit * e0),
                            ('heat_current', s.heat_current, np.array(r['heat']) * unit * e0)):
        if not abs(np.array(got) - want).max() <= tol:
            fail.append('%s is %s, exactly %s' % (name, list(np.array(got)), list(want)))
    return {'fail': fail, 'n': n + 3 * len(c['mulst'])}


# ------------------------------------------------------------------ random systems
def laws(c, ctx):
    s = system.build(c)
    ret, cut = fo.restrict(s, c)
    s.solve()
    if not s.success:
        raise Skip('no unique stationary state')
    eq, p, cf = fo.equation(s, c, ret, cut)
    v, gap = eq.solve()
    if gap < 1e-7:
        raise Skip('no unique stationary state')
    tol = 1e-10 / gap
    rho = system.density_matrix(s)
    q = np.array([x[0] for x in system.quantum_numbers(s)], float)
    E, T, mu = np.array(s.Ea), np.array(c['tlst']), np.array(c['mulst'])
    C, CE, CH = (np.array(x) for x in (s.current, s.energy_current, s.heat_current))
    top = abs(p.T).max() ** 2 * len(E)
    fail = []
    if abs(np.trace(rho) - 1) > tol:
        fail.append('trace is %s' % np.trace(rho))
    if abs(rho - rho.conj().T).max() > tol:
        fail.append('density matrix is not hermitian: %g' % abs(rho - rho.conj().T).max())
    least = np.linalg.eigvalsh((rho + rho.conj().T) / 2).min()
    # coherences that are cut within a group of connected states spoil positivity
    pairs = {tuple(x) for x in cf['pairs']}
    groups = all((a, d) in pairs for a, b in pairs for x, d in pairs if x == b)
    if groups and least < -tol:
        fail.append('density matrix has the eigenvalue %g and the occupations %s' % (least, np.diag(rho).real))
    if fo.apr_of(c) != 'Pauli':
        return {'fail': fail, 'n': len(E)}
    if abs(rho - np.diag(np.diag(rho))).max() != 0:
        fail.append('coherences appear')
    baths = c['tlst_ph'] if c.get('nbaths') else []
    even = len({*T, *baths}) == 1
    if even and len(set(mu)) == 1:
        w = np.zeros(len(E))
        x = -(E[ret] - mu[0] * q[ret]) / T[0]
        w[ret] = np.exp(x - x.max())
        w /= w.sum()
        if abs(np.diag(rho) - w).max() > tol:
            fail.append('equilibrium: occupations %s, grand-canonical %s' % (np.diag(rho).real, w))
        for name, x in (('current', C), ('energy_current', CE), ('heat_current', CH)):
            if abs(x).max() > tol * top * (1 + abs(E).max() + abs(mu).max()):
                fail.append('equilibrium: %s is %s' % (name, x))
    if abs(C.sum()) > tol * top:
        fail.append('currents do not add up: %s' % C)
    heat = sum(CH / T) + (-CE.sum() / baths[0] if len(baths) else 0.)
    size = top * (1 + abs(E).max() + abs(mu).max()) / min([*T, *baths])
    if not len(baths) and abs(CE.sum()) > tol * top * (1 + abs(E).max()):
        fail.append('energy currents do not add up: %s' % CE)
    if heat > tol * size:
        fail.append('entropy is destroyed: %g, heat currents %s, temperatures %s %s' % (heat, CH, T, baths))
    if even and len(mu) == 2 and (mu[0] - mu[1]) * C[0] < -tol * top * abs(mu[0] - mu[1]):
        fail.append('current %s flows against the bias %s' % (C, mu))
    return {'fail': fail, 'n': len(E) + 6}


def run(c, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        return exact(c, ctx) if c['kind'] == 'exact' else laws(c, ctx)
