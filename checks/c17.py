"""C17: the eigenstates reported with total-spin indexing against the multiplets of Spin.tla, and their transport
solution against the equation of all elements, whose terms TLC generates from MasterEq.tla."""
import contextlib
import io

import numpy as np

from checks import firstorder as fo
from harness import fock, oracle, system, tlc
from harness.runner import Skip

PROPERTY = 'C17'
ASSUMPTIONS = ['2, 4 and 6 single-particle states; interactions of density, exchange, pair-hopping and general two-body type',
               'leads in pairs of equal amplitudes, potentials, temperatures and bands for both spins',
               'transport of 6 single-particle states (thorough tier): the equation of elements with equal charge and projection']
TIME = {'quick': 400, 'thorough': 2800}
SPIN = 'SPECIFICATION Spec\nCONSTANTS N = %d\n Two = %s\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n'


# ------------------------------------------------------------------ cases
def interaction(rng, M, real, which):
    """{(m, n, k, l): value} of d+_m d+_n d_k d_l, summed over spins, hermitian as it stands."""
    U = {}

    def add(m, n, k, l, v):
        for key, x in (((m, n, k, l), v), ((l, k, n, m), np.conj(v))):
            U[key] = U.get(key, 0) + x / 2
    for m in range(M):
        add(m, m, m, m, 3 * rng.random())
        for n in range(m + 1, M):
            add(m, n, n, m, 2 * rng.random())
            add(n, m, m, n, 2 * rng.random())
            if which > 0:
                add(m, n, m, n, rng.random())                                   # exchange
            if which > 1:
                v = rng.normal() + (0 if real else 1j * rng.normal())
                add(m, m, n, n, v)                                              # pair hopping
    if which > 2:
        for _ in range(4):
            m, n, k, l = (int(x) for x in rng.integers(0, M, 4))
            add(m, n, k, l, rng.normal() + (0 if real else 1j * rng.normal()))
    return U


def spread(U, M):
    out = {}
    for (m, n, k, l), v in U.items():
        for a in (0, M):
            for b in (0, M):
                key = (m + a, n + b, k + b, l + a)
                if key[0] != key[1] and key[2] != key[3]:
                    out[key] = out.get(key, 0) + v
    return [list(k) + [system.fromarray(v)] for k, v in out.items()]


def dot(rng, N, real, which, flat=False):
    M = N // 2
    h = []
    for i in range(M):
        e = 0. if flat else float(rng.normal())
        h += [[i, i, e], [i + M, i + M, e]]
        for j in range(i + 1, M):
            if rng.random() < .8:
                v = system.z(rng, .6, real)
                h += [[i, j, v], [i + M, j + M, v]]
    return dict(hsingle=h, coulomb=spread(interaction(rng, M, real, which), M) if which >= 0 else [])


def case(rng, N, kern, i, kind):
    real = bool(rng.random() < .4)
    nl = int(rng.choice([2, 4])) if N < 6 else 2
    mu, temp, band = system.random_leads(rng, nl // 2, wide=20.)
    c = dict(kind=kind, nsingle=N, nleads=nl, tleads=system.random_tunnel(rng, N, nl, real, spin='ssq'), mulst=mu * 2,
             tlst=temp * 2, dband=band * 2, indexing='ssq', itype=int(rng.integers(0, 4)), kerntype=kern,
             symq=bool(rng.random() < .7), norm_row=0)
    c.update(dot(rng, N, real, int(rng.integers(-1, 4)), flat=rng.random() < .15))
    c['again'] = dot(rng, N, real, int(rng.integers(-1, 4))) if rng.random() < .5 else None
    if kind == 'transport' and rng.random() < .3 and N < 6:
        v, t, b = system.random_baths(rng, N, 1, real, spin='ssq')
        c.update(nbaths=1, velph=v, tlst_ph=t, dband_ph=b, itype_ph=2)
    return c


def cases(tier, rng):
    quick = tier == 'quick'
    out = []
    for i in range(260 if quick else 1500):
        N = int(rng.choice([2, 4, 4, 4, 6]))
        out.append(case(rng, N, 'Pauli', i, 'states'))
    for i in range(120 if quick else 800):
        N = 2 if i % 3 == 0 else 4
        out.append(case(rng, N, fo.py(system.FIRST[i % 4], rng), i, 'transport'))
    if not quick:
        for i in range(12):
            c = case(rng, 6, system.FIRST[i % 4], i, 'transport')
            c['itype'] = 1 + i % 3
            out.append(c)
    return out


def prepare(cases, info):
    tab = fock.tables({c['nsingle'] for c in cases})
    spin = {}
    for n in {c['nsingle'] for c in cases}:
        r = tlc.run('SpinGen', cfg=SPIN % (n, 'FALSE' if n > 4 else 'TRUE'), outputs=['spin.json'], workers=4, timeout=600)
        spin[n] = [tuple(x) for x in r.data['spin.json']['listing']]
    todo = {}
    for c in cases:
        if c['kind'] == 'transport':
            k = (c['nsingle'], fo.apr_of(c), bool(c.get('nbaths')))
            todo[k] = full(spin[c['nsingle']], *k)
    system.preload(list(todo.values()))
    return dict(tab=tab, spin=spin)


def full(listing, N, apr, ph):
    """All elements between states of equal charge (and projection, for six single-particle states)."""
    return system.config(apr, [x[:1] if N < 6 else x[:2] for x in listing], ph)


# ------------------------------------------------------------------ eigenstates
def states(s, c, tab, spin, what):
    """Everything the property says about the states; returns (failures, comparisons, eigenvectors)."""
    n = s.si.nmany
    got = [tuple(int(y) for y in s.si.ind_qn[b]) for b in range(n)]
    if got != spin:
        return ['%s: states are listed as %s, expected %s' % (what, got, spin)], 1, None
    flat = {}
    for q, x in enumerate(s.si.ssqlst):
        for y in x:
            for z in y:
                for b in z:
                    flat[int(b)] = q
    if flat != {b: spin[b][0] for b in range(n)}:
        return ['%s: ssqlst holds %s' % (what, flat)], 1, None
    W = fock.eigenvectors(s)
    H = tab.hamiltonian(system.todict(c['hsingle']), system.todict(c['coulomb']))
    E = np.array(s.Ea)
    if abs(H - H.conj().T).max() > 1e-12 * (1 + abs(H).max()):
        raise AssertionError('not hermitian')
    up = tab.spin_raise()
    if abs(H @ up - up @ H).max() > 1e-10 * (1 + abs(H).max()):
        raise AssertionError('not symmetric')
    fail, top = [], 1 + abs(H).max()

    def small(x, tol, msg):
        x = abs(np.asarray(x)).max(initial=0.)
        if not x <= tol:
            fail.append('%s: %s (%g)' % (what, msg, x))
    small(W.conj().T @ W - np.eye(n), 1e-10, 'states are not orthonormal')
    small(H @ W - W * E, 1e-9 * top, 'states are not eigenstates of the Hamiltonian with the reported energies')
    q, m, t = (np.array([x[k] for x in spin]) for k in range(3))
    small(W * (tab.charge[:, None] != q[None, :]), 0, 'states mix charges')
    small(W * (tab.sz[:, None] != m[None, :]), 0, 'states mix spin projections')
    four = 4 * up.T @ up + np.diag(tab.sz * (tab.sz + 2))
    small(four @ W - W * (t * (t + 2)), 1e-9, 'states are not eigenstates of the total spin')
    at = {x: b for b, x in enumerate(spin)}
    twist = {}
    for (Q, M, S, k), b in at.items():
        if M - 2 < -S:
            small(up.T @ W[:, b], 1e-9, 'state %s is not the lowest member' % ((Q, M, S, k),))
            continue
        o = at[Q, M - 2, S, k]
        small(E[b] - E[o], 1e-9 * top, 'energies of the members %s differ' % ((Q, M, S, k),))
        fct = np.sqrt(S * (S + 2) - M * (M - 2)) / 2
        z = W[:, o].conj() @ up.T @ W[:, b] / fct
        small(abs(z) - 1, 1e-9, 'lowering %s does not lead to the next member' % ((Q, M, S, k),))
        # members may differ by a phase, but all multiplets of one kind by the same one
        y = twist.setdefault((Q, M, S), z)
        small(z - y, 1e-8, 'members of the multiplets %s differ by unequal phases' % ((Q, M, S),))
    T = tab.tunneling(c['nleads'], system.todict(c['tleads']))
    small(np.array(s.Tba) - W.conj().T @ T @ W, 1e-9 * (1 + abs(T).max()), 'amplitudes are not those of the states')
    return fail, 8 * n, W


def apart(c):
    """The states of the case and, after a change, those of the second dot."""
    yield c, 'states'
    if c['again']:
        d = dict(c, **c['again'])
        new, old = {}, {}
        for k in ('hsingle', 'coulomb'):
            new[k], old[k] = system.todict(d[k]), system.todict(c[k])
        yield d, {k: {**{x: 0. for x in old[k]}, **new[k]} for k in new}


def run(c, ctx):
    N = c['nsingle']
    tab, spin = ctx['tab'][N], ctx['spin'][N]
    fail, n = [], 0
    with contextlib.redirect_stdout(io.StringIO()):
        s = system.build(c)
        for d, change in apart(c):
            if change != 'states':
                s.change(**change)
            s.solve(masterq=c['kind'] == 'transport')
            f, k, W = states(s, d, tab, spin, 'first dot' if change == 'states' else 'changed dot')
            fail, n = fail + f, n + k
            if fail or c['kind'] == 'states':
                continue
            f, k = transport(s, d, spin)
            fail, n = fail + f, n + k
    return {'fail': fail, 'n': n}


# ------------------------------------------------------------------ transport
def transport(s, c, spin):
    apr, n = fo.apr_of(c), s.si.nmany
    ph = bool(c.get('nbaths'))
    if not s.success:
        raise Skip('no unique stationary state')
    cf = full(spin, c['nsingle'], apr, ph)
    t = system.terms([cf])[0]
    kw = dict(V=np.array(s.Vbbp), temp_ph=c['tlst_ph'], band_ph=c['dband_ph'], itype_ph=c['itype_ph']) if ph else {}
    E = np.array(s.Ea)
    at = {x: b for b, x in enumerate(spin)}
    # the same energies for all members, as they are up to rounding
    E = np.array([E[at[q, -S, S, k]] for q, m, S, k in spin])
    p = oracle.Params(E, np.array(s.Tba), c['mulst'], c['tlst'], c['dband'], c['itype'], **kw)
    eq = oracle.Equation(apr, t, p, cf['pairs'])
    rho = system.density_matrix(s)
    fail = []
    if not np.isfinite(rho).all() or abs(rho).max() > 1e4:
        raise Skip('no unique stationary state')
    if abs(np.trace(rho) - 1) > 1e-9 * abs(rho).max():
        fail.append('trace is %s' % np.trace(rho))
    for b, (q, m, S, k) in enumerate(spin):
        for bp, (q2, m2, S2, k2) in enumerate(spin):
            if (q, m, S) != (q2, m2, S2):
                if rho[b, bp] != 0:
                    fail.append('element between %s and %s is %s' % (spin[b], spin[bp], rho[b, bp]))
            elif rho[b, bp] != rho[at[q, -S, S, k], at[q, -S, S, k2]]:
                fail.append('element %s %s differs between members' % (spin[b], spin[bp]))
    tol = 2e-5 if fo.uses_quad(c['kerntype'], c['itype'], c.get('nbaths'), c.get('itype_ph', 0)) else 1e-8
    if apr == 'Pauli':
        # only occupations
        eqrho = np.diag(np.diag(rho))
    else:
        eqrho = rho
    v = eq.vector(eqrho)
    r = abs(eq.L @ v).max()
    lim = tol * abs(eq.absL).max() * abs(v).max()
    if r > lim:
        fail.append('the solution does not obey the equation of all elements: residual %g (limit %g)' % (r, lim))
    C, CE, size = eq.currents(eqrho)
    for name, got, want, w in (('currents', s.current, C, 1), ('energy currents', s.energy_current, CE, 1 + abs(E).max())):
        if not abs(np.array(got) - want).max() <= tol * w * (size.max() + 1e-3 * abs(p.T).max() ** 2):
            fail.append('%s are %s, all elements give %s' % (name, got, want.real))
    return fail, 2 * len(cf['pairs'])
