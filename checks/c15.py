"""C15: the second-order kernel against the diagrams that TLC enumerates from Diagrams.tla (density matrix, lead-resolved
kernels, particle and energy currents), against the exact transmission formula to the order to which it is exact, the
Pauli equation at weak coupling, equilibrium, relabelling, and the compiled against the Python implementation through
histories of Switches.tla."""
import contextlib
import io

import numpy as np

from harness import diagrams as dg
from harness import system, tlc
from harness.runner import Skip

PROPERTY = 'C15'
ASSUMPTIONS = ['diagrams: dots of up to 3 single-particle states, bands of 1e5 temperatures, '
               'energies of equal charge that differ by more than 0.15 where coherences correct the kernel',
               'equal bandwidths of all leads (the approach assumes them)',
               'energy currents are compared where they are reported (real products of amplitudes)']
TIME = {'quick': 420, 'thorough': 2800}
MC = 'SPECIFICATION Spec\nCONSTANT Order = %d\nINVARIANTS Laws Irreducible%s\nCHECK_DEADLOCK FALSE\n'
SW = 'SPECIFICATION SpecG\nCONSTANT Depth = %d\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n'
DOTS = {1: (0, 1), 2: (0, 1, 1, 2), 3: (0, 1, 1, 1, 2, 2, 2, 3)}


# ------------------------------------------------------------------ cases
def numbers(rng, N, nl, real, scale, interacting=True, apart=0.):
    while True:
        h = [[k, k, float(rng.normal())] for k in range(N)]
        h += [[i, j, system.z(rng, .5, real)] for i in range(N) for j in range(i + 1, N)]
        if N == 1 or apart == 0:
            break
        m = np.zeros((N, N), complex)
        for i, j, x in h:
            m[i, j] = system.cplx(x)
            m[j, i] = np.conj(m[i, j])
        e = np.linalg.eigvalsh(m)
        if np.diff(e).min() > apart:
            break
    U = [[i, j, j, i, float(2 * rng.random())] for i in range(N) for j in range(i + 1, N)] if interacting else []
    t = [[l, i, system.z(rng, scale, real)] for l in range(nl) for i in range(N) if rng.random() < .85 or i == l % N]
    mu = [float(rng.normal()) for _ in range(nl)]
    temp = [float(.3 + rng.random()) for _ in range(nl)]
    if rng.random() < .4:
        temp = temp[:1] * nl
    return dict(nsingle=N, nleads=nl, hsingle=h, coulomb=U, tleads=t, mulst=mu, tlst=temp)


def full(c, D, itype=1):
    return dict(c, dband=[[-D, D]] * c['nleads'], indexing='charge', itype=itype, kerntype='RTD')


def diagram_case(rng, i):
    N = int(rng.choice([1, 2, 2, 2, 3])) if i % 3 else 2
    nl = int(rng.choice([1, 2, 2, 3])) if N < 3 else 2
    real = bool(rng.random() < .5)
    c = full(numbers(rng, N, nl, real, .06, apart=.15), 1e5)
    return dict(c, kind='diagram', real=real, corr=bool(rng.random() < .7), impl='pyRTD' if i % 2 else 'RTD')


def manybody_case(rng, i):
    """Any energies; amplitudes that act like operators of single-particle states on rotated states of a permuted list
    (other amplitudes have no limit of infinite bandwidth)."""
    N = 1 if i % 5 == 0 else 2
    nl = int(rng.choice([1, 2, 2, 3]))
    real = bool(rng.random() < .5)
    d = [np.array([[0, 0], [1, 0]])] if N == 1 else [np.kron([[0, 0], [1, 0]], np.eye(2)), np.kron(np.diag([1, -1]), [[0, 0], [1, 0]])]
    q = np.array([0, 1] if N == 1 else [0, 1, 1, 2])
    n = len(q)
    while True:
        E = rng.normal(size=n)
        if N == 1 or abs(E[1] - E[2]) > .15:
            break
    R = np.eye(n, dtype=complex)
    if N == 2:
        a, b = rng.uniform(0, 2 * np.pi, 2)
        R[1:3, 1:3] = [[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]] @ np.diag([1, 1 if real else np.exp(1j * b)])
    T = np.zeros((nl, n, n), complex)
    for l in range(nl):
        for op in d:
            x = R.conj().T @ (op * system.cplx(system.z(rng, .06, real))) @ R
            T[l] += x + x.conj().T
    o = rng.permutation(n)
    if rng.random() < .4:
        # charges counted by holes
        q = q.max() - q
    return dict(kind='manybody', Ea=E[o].tolist(), Na=[int(x) for x in q[o] + int(rng.integers(0, 3))],
                Tba=system.fromarray(T[:, o][:, :, o]), nleads=nl, mulst=[float(rng.normal()) for _ in range(nl)],
                tlst=[float(.3 + rng.random()) for _ in range(nl)], dband=[[-1e5, 1e5]] * nl, itype=1, kerntype='RTD',
                real=real, corr=bool(rng.random() < .7), impl='pyRTD' if i % 2 else 'RTD')


def cases(tier, rng):
    quick = tier == 'quick'
    k = 1 if quick else 7
    out = [diagram_case(rng, i) for i in range(130 * k)]
    out += [manybody_case(rng, i) for i in range(66 * k)]
    depth, num = (7, 120) if quick else (12, 700)
    r = tlc.run('SwitchesGen', cfg=SW % depth, outputs=['switches.ndjson'], timeout=300,
                args=['-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(int(rng.integers(1, 10 ** 6)))])
    for i, hist in enumerate(r.data['switches.ndjson']):
        N = int(rng.choice([1, 2, 2, 3] if i % 4 == 0 else [1, 2, 2, 2]))
        nl = int(rng.choice([1, 2, 3])) if N < 3 else 2
        D = float(rng.choice([20., 50., 300.]))
        c = full(numbers(rng, N, nl, bool(rng.random() < .5), float(rng.choice([.03, .1, .2])), apart=.05), D,
                 itype=int(rng.choice([0, 1, 1, 2, 3])))
        out.append(dict(c, kind='history', first=hist['first'], steps=hist['steps'], norm=int(rng.integers(0, 2)),
                        symq=bool(rng.random() < .7)))
    for i in range(30 * k):
        N = 1 + i % 2
        c = full(numbers(rng, N, int(rng.choice([2, 3])), bool(i % 4 < 2), .05, interacting=False, apart=.3), 1e5)
        out.append(dict(c, kind='exact'))
    for i in range(24 * k):
        N = int(rng.choice([1, 2]))
        c = full(numbers(rng, N, int(rng.choice([2, 3])), bool(rng.random() < .5), .04, apart=.3), 1e4)
        out.append(dict(c, kind='weak'))
    for i in range(16 * k):
        N = int(rng.choice([1, 2, 2]))
        c = full(numbers(rng, N, int(rng.choice([2, 3])), bool(rng.random() < .5), .06, apart=.3), 1e5)
        c.update(mulst=c['mulst'][:1] * c['nleads'], tlst=c['tlst'][:1] * c['nleads'])
        out.append(dict(c, kind='equilibrium'))
    for i in range(12 * k):
        N, nl = int(rng.choice([1, 2])), int(rng.choice([2, 3]))
        c = full(numbers(rng, N, nl, bool(i % 4 < 3), .1, apart=.3), 1e5)
        c['tlst'] = c['tlst'][:1] * nl
        unit = float(10. ** rng.integers(-7, 4))
        c = rescaled(c, unit)
        out.append(dict(c, kind='close', unit=unit, apart=[0.] + [float(rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -4)) for _ in range(nl - 1)],
                        impl='pyRTD' if i % 2 else 'RTD', corr=bool(rng.random() < .7)))
    for i in range(24 * k):
        N = int(rng.choice([2, 2, 3])) if i % 4 == 0 else 2
        nl = int(rng.choice([2, 3])) if N < 3 else 2
        real = bool(rng.random() < .5)
        # complex products of amplitudes may take another route to the wide-band integrals
        c = full(numbers(rng, N, nl, real, .1, apart=.1), 100. if real else 1e5)
        out.append(dict(c, kind='relabel', tol=1e-7 if real else 1e-4, leads=rng.permutation(nl).tolist(), dot=rng.permutation(N).tolist(),
                        impl='pyRTD' if i % 2 else 'RTD'))
    return out


def prepare(cases, info):
    tlc.run('DiagramsMC', cfg=MC % (1, ' Mirrored'), timeout=300)
    tlc.run('DiagramsMC', cfg=MC % (2, ''), timeout=600)
    dots = {DOTS[c['nsingle']] for c in cases if c['kind'] == 'diagram'}
    dots |= {tuple(x - min(c['Na']) for x in c['Na']) for c in cases if c['kind'] == 'manybody'}
    if dots:
        dg.tables(dots)


# ------------------------------------------------------------------ helpers
def solve(c, corr=True, **over):
    with contextlib.redirect_stdout(io.StringIO()):
        s = system.build(c, **over)
        s.off_diag_corrections = bool(corr)
        if 'Ea' in c:
            s.nsingle = s.si.nsingle = c['nleads']
            s.leads.tleads_array = np.zeros((c['nleads'], c['nleads']), complex)
            s.solve(qdq=False)
        else:
            s.solve()
    return s


def charges(s):
    return [q[0] for q in system.quantum_numbers(s)]


def occupation(s):
    n = s.si.nmany
    return np.array([np.real(s.get_phi0(b, b)) for b in range(n)])


def blocks(s):
    """Lead-resolved kernel by label (only the Python implementation exposes it), None if it does not."""
    W = getattr(s.appr, 'Wdd', None)
    if W is None:
        return None
    q = charges(s)
    i = [s.si.get_ind_dm0(b, b, q[b] - min(q)) for b in range(len(q))]
    return np.array(W)[:, i][:, :, i]


def laws(s, what, W=None):
    fail, p = [], occupation(s)
    if not np.isfinite(p).all():
        return [what + ': occupations are not finite']
    if abs(p.sum() - 1) > 1e-9 * (1 + abs(p).max()):
        fail.append('%s: occupations sum to %.12g' % (what, p.sum()))
    I = np.array(s.current)
    T = np.array(s.Tba)
    scale = abs(T).max() ** 2 * 2 * np.pi * abs(p).max()
    if not abs(I.sum()) <= 1e-8 * scale:
        fail.append('%s: currents %s do not balance' % (what, I.tolist()))
    h = s.energy_current - I * np.array(list(s.leads.mulst))
    if np.isfinite(s.energy_current).all() and abs(h - s.heat_current).max() > 1e-12 * (1 + abs(h).max()):
        fail.append('%s: heat currents %s, expected %s' % (what, s.heat_current, h))
    if W is not None:
        top = abs(W).max()
        if abs(W.sum(1)).max() > 1e-9 * top * len(p):
            fail.append('%s: a column of the kernel of a lead sums to %g' % (what, abs(W.sum(1)).max()))
        if abs(W.sum(0) @ p).max() > 1e-9 * top * abs(p).max() * len(p):
            fail.append('%s: the kernel does not annihilate the occupations: %g' % (what, abs(W.sum(0) @ p).max()))
        want = [np.dot(charges(s), w @ p) for w in W]
        if abs(np.array(want) - I).max() > 1e-9 * top * abs(p).max() * len(p) * max(charges(s)):
            fail.append('%s: currents %s, the kernel gives %s' % (what, I.tolist(), want))
    return fail


def same(got, want, tol, what):
    got, want = np.array(got), np.array(want)
    return [] if got.shape == want.shape and abs(got - want).max(initial=0.) <= tol else \
        ['%s: %s instead of %s' % (what, got.tolist(), want.tolist())]


# ------------------------------------------------------------------ diagrams
def diagram(c):
    s = solve(c, c['corr'], kerntype=c['impl'])
    q = charges(s)
    K = dg.Kernel(s.Ea, s.Tba, q, c['mulst'], c['tlst'], c['corr'])
    if K.gap < 1e-4:
        raise Skip('no unique stationary state')
    W = blocks(s) if c['impl'] == 'pyRTD' else None
    what = '%s, corrections %s' % (c['impl'], 'on' if c['corr'] else 'off')
    fail = laws(s, what, W)
    top = abs(K.W).max()
    err = [0, 0, 0, 0]
    n = 4
    if W is not None:
        err[0] = abs(W - K.W).max() / top
        fail += same(W, K.W, LIM[0] * top, what + ': kernel')
        n += W.size
    p = occupation(s)
    err[1] = abs(p - K.p).max() / abs(K.p).max() * K.gap
    fail += same(p, K.p, LIM[1] * abs(K.p).max() / K.gap, what + ': occupations')
    err[2] = abs(s.current - K.current).max() / top * K.gap
    fail += same(s.current, K.current, LIM[2] * top / K.gap, what + ': currents')
    if c['real'] and not np.isfinite(s.energy_current).all() and c['kind'] == 'diagram':
        fail.append(what + ': energy currents are %s for real amplitudes' % s.energy_current)
    elif np.isfinite(s.energy_current).all() and c['kind'] == 'diagram':
        want, sure = K.energy_current()
        lim = LIM[3] * top / K.gap + sure
        err[3] = abs(s.energy_current - want).max() / lim
        fail += same(s.energy_current, want, lim, what + ': energy currents')
        n += len(want)
        if abs(np.sum(s.energy_current)) > 1e-8 * top * abs(p).max() * (1 + max(abs(K.E))):
            fail.append('%s: energy currents %s do not balance' % (what, s.energy_current))
    return {'fail': fail, 'n': n + len(p) + 2 * len(K.T), 'err': [float(x) for x in err], 'gap': float(K.gap),
            'second': float(abs(K.second).max() / top), 'off': float(abs(K.off).max() / top)}


LIM = (2e-5, 2e-5, 1e-5, 1e-4)         # of the largest rate


# ------------------------------------------------------------------ histories
def history(c):
    ref = {}
    for eff in ('with', 'without'):
        for impl in ('RTD', 'pyRTD'):
            s = solve(c, eff == 'with', kerntype=impl)
            ref[eff, impl] = report(s)
            f = laws(s, '%s %s corrections' % (impl, eff), blocks(s) if impl == 'pyRTD' else None)
            if f:
                return {'fail': f}
            if impl == 'pyRTD':
                x = np.linalg.svd(blocks(s).sum(0), compute_uv=False)
                if x[-2] < 1e-6 * x[0]:
                    raise Skip('no unique stationary state')
    fail, n = [], 0
    for eff in ('with', 'without'):
        fail += differ(ref[eff, 'RTD'], ref[eff, 'pyRTD'], 'compiled against Python, %s corrections' % eff, gamma(c))
        n += 4
    with contextlib.redirect_stdout(io.StringIO()):
        s = system.build(c, kerntype=c['first']['impl'], norm_row=c['norm'], symq=c['symq'])
        s.off_diag_corrections = c['first']['on']
        on = c['first']['on']
        # which coherences there are is known after diagonalisation
        s.solve(masterq=False)
        for k, x in enumerate(c['steps']):
            if x['op'] == 'switch':
                on = not on
                s.off_diag_corrections = on
            elif x['op'] == 'remove':
                s.remove_coherences(1e-9)
            elif x['op'] == 'restore':
                s.use_all_states()
            elif x['op'] == 'change':
                s.kerntype = x['impl']
            else:
                s.solve(masterq=True)
            if bool(s.off_diag_corrections) != x['on']:
                fail.append('after event %d (%s) the switch of the corrections is %s' % (k + 1, x['op'], s.off_diag_corrections))
            if x['op'] == 'solve':
                n += 4
                fail += differ(report(s), ref[x['eff'], x['impl']],
                               'after %s from %s' % ([y['op'] for y in c['steps'][:k + 1]], c['first']), gamma(c))
            if fail:
                break
    return {'fail': fail, 'n': n}


def report(s):
    return dict(p=occupation(s), current=np.array(s.current), energy=np.array(s.energy_current), heat=np.array(s.heat_current))


def differ(a, b, what, scale):
    """scale: size of the rates"""
    out = []
    for k in a:
        x, y = a[k], b[k]
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            out.append('%s: %s is %s instead of %s' % (what, k, x, y))
        elif not np.isnan(x).all() and not abs(x - y).max() <= 1e-7 * (1 if k == 'p' else scale) * (1 + abs(a['p']).max()):
            out.append('%s: %s is %s instead of %s' % (what, k, x.tolist(), y.tolist()))
    return out


# ------------------------------------------------------------------ scaling with the coupling
def scaled(c, f):
    return dict(c, tleads=[r[:-1] + [(f * np.array(r[-1])).tolist()] for r in c['tleads']])


def landauer(c):
    """Exact currents of non-interacting electrons and wide bands."""
    from scipy.integrate import quad
    N, nl = c['nsingle'], c['nleads']
    h = np.zeros((N, N), complex)
    for (i, j), x in system.todict(c['hsingle']).items():
        h[j, i] += x
        if i != j:
            h[i, j] += np.conj(x)
    t = np.zeros((nl, N), complex)
    for (l, i), x in system.todict(c['tleads']).items():
        t[l, i] = x
    G = [2 * np.pi * np.outer(v, v.conj()) for v in t]
    mu, T = c['mulst'], c['tlst']
    ev = np.linalg.eigvals(h - .5j * sum(G))

    def tr(e, l):
        g = np.linalg.inv(e * np.eye(N) - h + .5j * sum(G))
        f = [.5 * (1 - np.tanh((e - mu[k]) / (2 * T[k]))) for k in range(nl)]
        return sum(np.trace(G[l] @ g @ G[m] @ g.conj().T).real * (f[l] - f[m]) for m in range(nl)) / (2 * np.pi)
    lo, hi = min(mu) - 45 * max(T), max(mu) + 45 * max(T)
    marks = sorted({lo, hi} | {float(x) for z in ev for k in (-300, -30, -3, 0, 3, 30, 300)
                               for x in [z.real + k * abs(z.imag)] if lo < x < hi} | set(mu))
    I, J = np.zeros(nl), np.zeros(nl)
    for l in range(nl):
        for a, b in zip(marks, marks[1:]):
            I[l] += quad(tr, a, b, args=(l,), epsabs=1e-15, epsrel=1e-11, limit=200)[0]
            J[l] += quad(lambda e: e * tr(e, l), a, b, epsabs=1e-15, epsrel=1e-11, limit=200)[0]
    return I, J


def falls(a, b, order, floor, what):
    """|b| (couplings smaller by 4) is what the order says of |a|."""
    a, b = abs(np.array(a)).max(), abs(np.array(b)).max()
    want = a / 4 ** order
    return [] if b <= 1.6 * want + floor else \
        ['%s: deviation %g falls to %g when the couplings fall by 4 (%g expected)' % (what, a, b, want)]


def exact(c):
    d = []
    for f in (1., .5):
        v = scaled(c, f)
        s = solve(v)
        I, J = landauer(v)
        d.append((s.current - I, s.energy_current - J, abs(I).max(), abs(J).max(), np.isfinite(s.energy_current).all()))
    g = gamma(c)
    floor = 1e-5 * g ** 2
    fail = falls(d[0][0], d[1][0], 3, floor, 'currents against the exact ones')
    if d[0][4] and d[1][4]:
        fail += falls(d[0][1], d[1][1], 3, 10 * floor, 'energy currents against the exact ones')
    elif all(np.isreal(system.cplx(r[-1])) for r in c['tleads'] + c['hsingle']):
        fail.append('energy currents are not reported for real amplitudes')
    return {'fail': fail, 'n': 2 * c['nleads'], 'd': [[float(abs(x).max() / g) for x in y[:2]] for y in d]}


def gamma(c):
    return 2 * np.pi * max(abs(system.cplx(r[-1])) for r in c['tleads']) ** 2


def weak(c):
    """Against the Pauli equation, at couplings that fall by 4."""
    d, g = [], gamma(c)
    for f in (.5, .25, .125):
        v = scaled(c, f)
        for k in ('RTD',):
            s, r = solve(v, kerntype=k), solve(v, kerntype='Pauli')
            d.append((occupation(s) - occupation(r), (s.current - r.current) / f ** 2, (s.energy_current - r.energy_current) / f ** 2))
    fail = []
    for i, name in enumerate(('occupations', 'currents', 'energy currents')):
        if not all(np.isfinite(x[i]).all() for x in d):
            continue
        floor = 1e-7 * (1 if i == 0 else g)
        # of first order relative to the coupling, with the same coefficient
        e = abs(4 * d[2][i] - d[1][i]).max() - (.3 * abs(4 * d[1][i] - d[0][i]).max() + floor)
        if e > 0:
            fail.append('%s do not approach the Pauli ones: deviations %s' % (name, [abs(x[i]).max() for x in d]))
    return {'fail': fail, 'n': 3}


def equilibrium(c):
    """Currents vanish up to the third order, occupations of the Pauli equation to the first."""
    a, b = solve(c), solve(scaled(c, .5))
    g = gamma(c)
    fail = falls(a.current, b.current, 3, 1e-6 * g ** 2, 'equilibrium currents')
    if np.isfinite(a.energy_current).all():
        fail += falls(a.energy_current, b.energy_current, 3, 1e-5 * g ** 2, 'equilibrium energy currents')
    if abs(a.current).max() > 30 * g ** 3 / min(c['tlst']) ** 2 + 1e-6 * g ** 2:
        fail.append('equilibrium currents %s for couplings of %g' % (a.current, g))
    return {'fail': fail, 'n': 2}


def rescaled(c, f):
    def z(x, f):
        return (np.array(x) * f).tolist() if isinstance(x, list) else float(x * f)
    return dict(c, **{k: [r[:-1] + [z(r[-1], f)] for r in c[k]] for k in ('hsingle', 'coulomb')},
                tleads=[r[:-1] + [z(r[-1], f ** .5)] for r in c['tleads']],
                **{k: [z(x, f) for x in c[k]] for k in ('mulst', 'tlst', 'dband')})


def close(c):
    """Leads of almost equal temperatures, in any unit of energy: no jump from those of leads with equal temperatures."""
    a = solve(c, kerntype=c['impl'], corr=c['corr'])
    b = solve(dict(c, tlst=[x * (1 + d) for x, d in zip(c['tlst'], c['apart'])]), kerntype=c['impl'], corr=c['corr'])
    fail, g, lim = [], gamma(c), 1e-4 + 30 * abs(np.array(c['apart'])).max()
    for k, size in (('current', g), ('energy_current', g * (abs(a.Ea).max() + max(c['tlst'])))):
        x, y = np.array(getattr(a, k)), np.array(getattr(b, k))
        if np.isfinite(x).all() and not abs(x - y).max() <= lim * size:
            fail.append('%s %s at equal temperatures, %s at relative differences of %s' % (k, x, y, c['apart']))
    if not abs(occupation(a) - occupation(b)).max() <= lim:
        fail.append('occupations %s at equal temperatures, %s at relative differences of %s' % (occupation(a), occupation(b), c['apart']))
    return {'fail': fail, 'n': 3}


def relabel(c):
    L, P = c['leads'], c['dot']
    sys2 = dict(c, tleads=[[L[l], P[i], x] for l, i, x in c['tleads']], coulomb=[[P[i], P[j], P[k], P[l], x] for i, j, k, l, x in c['coulomb']])
    # the pairs are given with i < j
    h = []
    for i, j, x in c['hsingle']:
        a, b = P[i], P[j]
        h.append([a, b, x] if a <= b else [b, a, x if not isinstance(x, list) else [x[0], -x[1]]])
    U = []
    for i, j, k, l, x in sys2['coulomb']:
        U.append([i, j, k, l, x] if i < j else [j, i, l, k, x])
    sys2.update(hsingle=h, coulomb=U)
    for k in ('mulst', 'tlst'):
        v = list(c[k])
        for l in range(len(L)):
            v[L[l]] = c[k][l]
        sys2[k] = v
    a, b = solve(c, kerntype=c['impl']), solve(sys2, kerntype=c['impl'])
    fail, g = [], gamma(c)
    for k in ('current', 'energy_current', 'heat_current'):
        x, y = np.array(getattr(a, k)), np.array(getattr(b, k))[L]
        if np.isnan(x).any() != np.isnan(y).any() or (np.isfinite(x).all() and not abs(x - y).max() <= c['tol'] * g):
            fail.append('%s %s, after relabelling leads by %s and states by %s %s' % (k, x, L, P, y))
    pa, pb = sorted(zip(charges(a), a.Ea, occupation(a))), sorted(zip(charges(b), b.Ea, occupation(b)))
    if not np.allclose(pa, pb, atol=c['tol'] * (1 + abs(occupation(a)).max()), rtol=0):
        fail.append('occupations %s become %s' % (pa, pb))
    return {'fail': fail, 'n': 4}


def run(c, ctx):
    k = {'diagram': diagram, 'manybody': diagram, 'history': history, 'exact': exact, 'weak': weak,
         'equilibrium': equilibrium, 'relabel': relabel, 'close': close}[c['kind']]
    return k(c)
