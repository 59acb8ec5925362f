"""C16: histories of Iterate.tla replayed on real systems; after every event the recorded iterations are those that the
specification expects, and each of them is the one of a fresh system (of both implementations) that does all iterations
at once.  The equation that TLC enumerates from Neumann2.tla, evaluated on the same grid, gives the energy-resolved
amplitudes, the density matrix and the currents of every iteration.  Non-interacting systems, iterated to convergence,
against the exact transmission formula."""
import contextlib
import io

import numpy as np

from harness import neumann2, system, tlc
from harness.runner import Skip

PROPERTY = 'C16'
ASSUMPTIONS = ['up to 3 single-particle states and 3 leads, energy grids of 12 to 24 points for the histories',
               'a continued calculation keeps its configuration (continuing after a change is not part of the contract)',
               'equation: the same piecewise linear energy grid and the same iteration scheme are assumed; up to 3 single-particle '
               'or 7 many-body states, grids of up to 40 points, 4 iterations',
               'exact currents: one or two levels, grids of 160 to 320 points, agreement within the discretisation error']
TIME = {'quick': 400, 'thorough': 2800}
MC = 'SPECIFICATION Spec\nCONSTANTS Vers = %d Most = %d Deep = %d\nINVARIANT Laws\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n'
GEN = 'SPECIFICATION Spec\nCONSTANT Depth = %d\nCHECK_DEADLOCK FALSE\n'
TOL = 1e-8


def config(rng, N, nl):
    """Three versions of a configuration."""
    real = bool(rng.random() < 0.25)
    base = system.random_system(rng, N, nl, '2vN', str(rng.choice(['charge', 'Lin'])), real=real)
    base['kpnt'] = int(rng.choice([12, 16, 24] if N < 3 else [12]))
    out = [base]
    for k in range(2):
        c, o = dict(out[-1]), system.random_system(rng, N, nl, '2vN', base['indexing'], real=real)
        some = [x for x in ('hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dband', 'kpnt') if rng.random() < 0.5]
        for x in some or ['mulst']:
            c[x] = o[x] if x != 'kpnt' else int(rng.choice([12, 15, 20] if N < 3 else [12, 13]))
        out.append(c)
    return out


def cases(tier, rng):
    out = []
    quick = tier == 'quick'
    num, depth = (260, 8) if quick else (2400, 14)
    r = tlc.run('IterateGen', cfg=GEN % depth, outputs=['histories.ndjson'], timeout=600,
                args=['-simulate', 'num=%d' % num, '-depth', str(depth + 3), '-seed', str(int(rng.integers(1, 10 ** 6)))])
    for i, h in enumerate(r.data['histories.ndjson']):
        N = int(rng.choice([1, 2, 2, 2] + ([3] if i % 12 == 0 else [])))
        nl = int(rng.choice([1, 2, 2, 3])) if N < 3 else 2
        out.append(dict(kind='history', impl=h['impl'], steps=h['steps'], vers=config(rng, N, nl),
                        norm=int(rng.integers(0, 2)), symq=bool(rng.random() < 0.7)))
    out += [terms_case(rng, quick, i) for i in range(96 if quick else 1500)]
    for i in range(24 if quick else 160):
        out.append(exact_case(rng, quick, i))
    return out


def prepare(cases, info):
    big = len(cases) >= 1000
    tlc.run('IterateMC', cfg=MC % ((2, 6, 3) if big else (1, 4, 2)), timeout=600)
    tlc.run('Neumann2MC', cfg='SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n', workers=4, timeout=600)
    dots = {(0, 1), (0, 1, 1, 2), (0, 1, 1, 1, 2, 2, 2, 3)}
    for c in cases:
        if c['kind'] == 'terms':
            q = sorted(c['Na']) if 'Na' in c else sorted(bin(i).count('1') for i in range(2 ** c['nsingle']) if i not in c['drop'])
            dots |= {tuple(x - q[0] for x in q)}
            if c.get('dE') is not None:                     # states of a given order of energies
                dots |= set(kept(c, q))
    return dict(tab=neumann2.tables(dots))


# ------------------------------------------------------------------ histories
def arrays(it):
    return {k: np.array(getattr(it, k)) for k in ('phi0', 'phi1', 'current', 'energy_current', 'heat_current')}


def fresh(v, impl, n, noise=0.):
    """All iterations of a fresh system, and the energy-resolved amplitudes after each of them.  With noise, that of what one
    iteration hands to the next."""
    with contextlib.redirect_stdout(io.StringIO()):
        s = system.build(v, kerntype=impl)
        k1, rng = [], np.random.default_rng(0)

        def look(a):
            k1.append(np.array(a.phi1k))
            d = getattr(a, 'phi1k_delta', None)
            if noise and d is not None:
                d = np.asarray(d)
                d += noise * abs(d).max(initial=0.) * (rng.normal(size=d.shape) + 1j * rng.normal(size=d.shape))
        s.solve(niter=n, func_iter=look)
    return [arrays(it) for it in s.iters], k1, s


def magnified(v, a):
    """Rounding in each iteration of a diverging sequence, as multiplied by those that follow."""
    b, out, most = fresh(v, '2vN', len(a[0]), 1e-9), [], 0.
    for i, x in enumerate(a[0]):
        for k, y in (*x.items(), ('phi1k', a[1][i])):
            z = b[1][i] if k == 'phi1k' else b[0][i][k]
            most = max(most, abs(z - y).max(initial=0.) / (1 + abs(y).max(initial=0.))) if z.shape == y.shape else most
        out.append(1e-12 * most / 1e-9 if most < 1e-3 else np.inf)
    return out


def commutators(s, rho, phi1):
    """[H, rho] + sum of [T, phi1 + phi1^+] between states of equal charge, amplitudes by label."""
    E, T = np.array(s.Ea), np.array(s.Tba)
    full = phi1 + np.conj(phi1.transpose(0, 2, 1))
    Q = [sum(s.si.get_state(b)) for b in range(len(E))]
    r = (E[:, None] - E[None, :]) * rho + sum(T[l] @ full[l] - full[l] @ T[l] for l in range(len(T)))
    return np.where(np.equal.outer(Q, Q), r, 0.)


def spread(s, a):
    """First-order amplitudes by label from an array (lead, index)."""
    si, n = s.si, s.si.nmany
    out = np.zeros((si.nleads, n, n), complex)
    for q in range(si.ncharge - 1):
        for c in si.statesdm[q + 1]:
            for b in si.statesdm[q]:
                out[:, c, b] = a[:, si.get_ind_dm1(c, b, q)]
    return out


def gap(s, k1, v):
    """How well the equation of the density matrix determines it."""
    grid, si = np.linspace(min(x[0] for x in v['dband']), max(x[1] for x in v['dband']), v['kpnt']), s.si
    A = np.trapz(k1, grid, axis=0)
    cols = []
    for q in range(si.ncharge):
        for b in si.statesdm[q]:
            for bp in si.statesdm[q]:
                rho = np.zeros((si.nmany, si.nmany), complex)
                z = 1. if b <= bp else 1j
                rho[b, bp] += z
                rho[bp, b] += np.conj(z)
                vec = np.zeros(si.ndm0, complex)
                vec[si.get_ind_dm0(b, bp, q)] += z
                vec[si.get_ind_dm0(bp, b, q)] += np.conj(z)
                r = commutators(s, rho, spread(s, A @ vec)).ravel()
                cols.append(np.concatenate([r.real, r.imag]))
    x = np.linalg.svd(np.array(cols).T, compute_uv=False)
    return x[-2] / x[0]


def assign(s, a, b):
    """Brings a system from one version to another through the public interface."""
    d = {}
    for k, name in (('hsingle', 'hsingle'), ('coulomb', 'coulomb'), ('tleads', 'tleads')):
        if a[k] != b[k]:
            new, old = system.todict(b[k]), system.todict(a[k])
            d[name] = {**{x: 0. for x in old}, **new}
    for k, name in (('mulst', 'mulst'), ('tlst', 'tlst'), ('dband', 'dlst')):
        if a[k] != b[k]:
            d[name] = {i: (tuple(x) if isinstance(x, list) else x) for i, x in enumerate(b[k])}
    if d:
        s.change(**d)
    s.kpnt = b['kpnt']


def accuracy(s, gap, v):
    """Relative accuracy of the arrays, and by what the amplitudes are multiplied in the currents: close to an equation without
    unique solution, and where large amplitudes cancel, rounding is magnified."""
    return TOL + 1e-11 / gap, abs(np.array(s.Tba)).max(initial=0.) * max(1., np.abs(v['dband']).max())


def differ(a, b, what, acc=(TOL, 0.)):
    out = []
    large = acc[1] * abs(b['phi1']).max(initial=0.) if 'phi1' in b else 0.
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            out.append('%s: %s has shape %s instead of %s' % (what, k, x.shape, y.shape))
        elif not abs(x - y).max(initial=0.) <= acc[0] * (1 + abs(y).max(initial=0.) + (large if 'current' in k else 0.)):
            out.append('%s: %s differs by %g' % (what, k, abs(x - y).max()))
    return out


def sound(s, what, v):
    """Laws of the last iteration: unit trace, hermitian, the master equation of the density matrix with the reported
    amplitudes, currents from these amplitudes, balance."""
    si, fail = s.si, []
    n, E, T = si.nmany, np.array(s.Ea), np.array(s.Tba)
    rho = system.density_matrix(s)
    if not np.isfinite(rho).all():
        return [what + ': density matrix is not finite']
    if abs(np.trace(rho) - 1) > TOL:
        fail.append('%s: trace is %s' % (what, np.trace(rho)))
    top = abs(rho).max()
    if abs(rho - rho.conj().T).max() > TOL * top:
        fail.append('%s: density matrix is not hermitian by %g' % (what, abs(rho - rho.conj().T).max()))
    Q = [sum(si.get_state(b)) for b in range(n)]
    phi1 = np.zeros((si.nleads, n, n), complex)
    for l in range(si.nleads):
        for c in range(n):
            for b in range(n):
                if Q[c] == Q[b] + 1:
                    phi1[l, c, b] = s.get_phi1(l, c, b)
    r = abs(commutators(s, rho, phi1)).max()
    size = (abs(E[:, None] - E[None, :]) * abs(rho)).max() + 2 * abs(T).max() * abs(phi1).max() * n
    if r > 1e-8 * size:
        fail.append('%s: the density matrix does not obey its equation, residual %g' % (what, r))
    I = [-2 * np.imag(np.sum(phi1[l] * T[l].T)) for l in range(si.nleads)]
    scale = abs(phi1).max() * abs(T).max() * n
    if not abs(np.array(I) - s.current).max() <= 1e-10 * scale + 1e-14:
        fail.append('%s: currents are %s, the amplitudes give %s' % (what, s.current, I))
    if abs(np.sum(s.current)) > 1e-8 * scale:
        fail.append('%s: currents do not balance: %s' % (what, s.current))
    grid, k1 = np.linspace(min(x[0] for x in v['dband']), max(x[1] for x in v['dband']), v['kpnt']), np.array(s.appr.phi1k)
    if k1.shape[0] != len(grid):
        return fail + ['%s: %d energies instead of %d' % (what, k1.shape[0], len(grid))]
    phi0 = np.array(s.phi0)
    a0, a1 = np.trapz(k1 @ phi0, grid, axis=0), np.trapz((k1 @ phi0) * grid[:, None, None], grid, axis=0)
    if abs(a0 - s.phi1).max() > 1e-9 * (abs(a0).max() + 1e-300):
        fail.append('%s: amplitudes are not the integrals of the energy-resolved ones: %g' % (what, abs(a0 - s.phi1).max()))
    W = np.zeros(s.si.nleads)
    for c in range(n):
        for b in range(n):
            if Q[c] == Q[b] + 1:
                i = si.get_ind_dm1(c, b, Q[b])
                W += [-2 * np.imag(a1[l, i] * T[l, b, c]) for l in range(si.nleads)]
    if abs(W - s.energy_current).max() > 1e-9 * (abs(a1).max() * abs(T).max() * n + 1e-300):
        fail.append('%s: energy currents are %s, the amplitudes give %s' % (what, s.energy_current, W))
    h = s.energy_current - s.current * np.array(v['mulst'])
    if abs(h - s.heat_current).max() > 1e-12 * (1 + abs(h).max()):
        fail.append('%s: heat currents are %s, expected %s' % (what, s.heat_current, h))
    return fail


def turned(s, r):
    """Whether the eigenvectors are those of the reference up to phases: the inputs are accumulated sums, and rounding may
    turn an eigenvector, by which coherences have other values."""
    if r is None:
        return False
    a, b = (np.array(x.Tba) for x in (s, r))
    return a.shape == b.shape and abs(a - b).max(initial=0.) > 1e-9 and np.allclose(s.Ea, r.Ea, 0., 1e-9) \
        and np.allclose(abs(a), abs(b), 0., 1e-9)


def history(c):
    most = {}
    for x in c['steps']:
        if x['nos']:
            most[x['base']] = max(most.get(x['base'], 0), len(x['nos']))
    ref, acc, fail, n = {}, {}, [], 0
    for v, m in most.items():
        a, b = fresh(c['vers'][v], '2vN', m), fresh(c['vers'][v], 'py2vN', m)
        least = min(gap(a[2], k1, c['vers'][v]) for k1 in a[1])
        if least < 1e-5:
            raise Skip('no unique stationary state')
        if len(a[0]) != m or len(b[0]) != m:
            return {'fail': ['%d iterations are recorded as %d (compiled) and %d (Python)' % (m, len(a[0]), len(b[0]))]}
        rel, large = accuracy(a[2], least, c['vers'][v])
        acc[v] = [(rel + x, large) for x in magnified(c['vers'][v], a)]
        for i in range(m):
            fail += differ(a[0][i], b[0][i], 'iteration %d, compiled against Python' % i, acc[v][i])
            fail += differ(dict(phi1k=a[1][i]), dict(phi1k=b[1][i]), 'iteration %d, compiled against Python' % i, acc[v][i])
            n += 6
        ref[v] = a
        if fail:
            return {'fail': fail, 'n': n}
    with contextlib.redirect_stdout(io.StringIO()):
        s = system.build(c['vers'][0], kerntype=c['impl'], norm_row=c['norm'], symq=c['symq'])
        at = 0
        for k, x in enumerate(c['steps']):
            e, what = x['e'], 'after event %d' % (k + 1)
            if e['op'] == 'solve':
                seen, wrong = [], []

                def look(a):
                    seen.append(a.iters[-1].niter)
                    j = len(a.iters) - 1
                    wrong.extend(differ(dict(phi1k=np.array(a.phi1k)), dict(phi1k=ref[x['base']][1][j]), 'energy-resolved', acc[x['base']][j]))
                kw = dict(niter=e['k']) if e['master'] or k % 2 else {}
                s.solve(restartq=e['restart'], qdq=e['qd'], masterq=e['master'], func_iter=look, **kw)
                if e['qd'] and turned(s, ref[at][2] if at in ref else None):
                    raise Skip('eigenvectors of other phases')
                fail += ['%s: %s' % (what, w) for w in wrong]
                if seen != x['last']:
                    fail.append('%s: the callback saw the iterations %s instead of %s' % (what, seen, x['last']))
            elif e['op'] == 'change':
                assign(s, c['vers'][at], c['vers'][e['arg']])
                at = e['arg']
            elif e['op'] == 'impl':
                s.kerntype = 'Pauli' if e['val'] == 'other' else e['val']
            elif e['op'] == 'norm':
                s.norm_row = e['arg']
            elif e['op'] == 'symq':
                s.symq = bool(e['arg'])
            elif e['op'] == 'query' and x['nos'] and x['impl'] != 'other':
                for b in range(s.si.nmany):
                    s.get_phi0(b, b)
            if x['impl'] == 'other':
                continue
            got = [it.niter for it in s.iters]
            n += 1
            if got != x['nos']:
                fail.append('%s (%s): recorded iterations %s, expected %s' % (what, e, got, x['nos']))
                break
            for i, it in enumerate(s.iters):
                fail += differ(arrays(it), ref[x['base']][0][i], '%s (%s): iteration %d' % (what, e, i), acc[x['base']][i])
                n += 5
            if got and e['op'] in ('solve', 'query') and x['base'] == at:
                last = {k: np.array(getattr(s, k)) for k in ('phi0', 'phi1', 'current', 'energy_current', 'heat_current')}
                fail += differ(last, ref[x['base']][0][len(got) - 1], '%s (%s): reported' % (what, e), acc[at][len(got) - 1])
                fail += sound(s, '%s (%s)' % (what, e), c['vers'][at])
                n += 8
            if fail:
                break
    if fail:
        fail = [f + ' (history %s)' % [y['e'] for y in c['steps'][:k + 1]] for f in fail[:3]]
    return {'fail': fail, 'n': n}


# ------------------------------------------------------------------ exact currents
def exact_case(rng, quick, i):
    N = 1 if i % 2 == 0 else 2
    nl = int(rng.choice([2, 3])) if N == 1 else 2
    D = float(rng.uniform(6, 9))
    h = [[k, k, float(rng.uniform(-1, 1))] for k in range(N)]
    if N == 2:
        h.append([0, 1, [float(rng.uniform(-.6, .6)), float(rng.uniform(-.6, .6))]])
    g = .16 if N == 2 else .25
    t = [[l, k, [float(g * rng.uniform(-1, 1)), float(g * rng.uniform(-1, 1))]] for l in range(nl) for k in range(N)]
    return dict(kind='exact', nsingle=N, hsingle=h, coulomb=[], nleads=nl, tleads=t, indexing='charge', itype=2,
                mulst=[float(rng.uniform(-1, 1)) for _ in range(nl)], tlst=[float(rng.uniform(.4, 1)) for _ in range(nl)],
                dband=[[-D, D]] * nl, kerntype='2vN' if N == 2 or i % 4 else 'py2vN', kpnt=(160 if N == 2 else 240),
                niter=8)


def transmission(c):
    """Currents and single-particle density matrix of non-interacting electrons."""
    N, nl, D = c['nsingle'], c['nleads'], c['dband'][0][1]
    h = np.zeros((N, N), complex)
    for (i, j), x in system.todict(c['hsingle']).items():
        h[j, i] += x
        if i != j:
            h[i, j] += np.conj(x)
    t = np.zeros((nl, N), complex)
    for (l, i), x in system.todict(c['tleads']).items():
        t[l, i] = x
    W = [np.outer(t[l], t[l].conj()) for l in range(nl)]
    E = np.linspace(-D, D, 40001)[1:-1]
    dE = E[1] - E[0]
    sigma = np.log((D + E) / (D - E)) - 1j * np.pi
    G = np.linalg.inv(E[:, None, None] * np.eye(N) - h - sum(W)[None] * sigma[:, None, None])
    Gd = np.conj(np.swapaxes(G, 1, 2))
    f = [1 / (np.exp((E - c['mulst'][l]) / c['tlst'][l]) + 1) for l in range(nl)]
    I, IE = np.zeros(nl), np.zeros(nl)
    for l in range(nl):
        for m in range(nl):
            tr = np.trace(2 * np.pi * W[l] @ G @ (2 * np.pi * W[m]) @ Gd, axis1=1, axis2=2).real * (f[l] - f[m])
            I[l] += tr.sum() * dE / (2 * np.pi)
            IE[l] += (E * tr).sum() * dE / (2 * np.pi)
    less = sum((G @ W[l] @ Gd) * f[l][:, None, None] for l in range(nl)).sum(0) * dE
    return I, IE, less


def exact(c, ctx):
    k1 = []
    with contextlib.redirect_stdout(io.StringIO()):
        s = system.build(c)
        s.solve(niter=c['niter'], func_iter=lambda a: k1.append(np.array(a.phi1k)))
    I, IE, less = transmission(c)
    N, fail = c['nsingle'], []
    gam = 2 * np.pi * max(abs(np.array([complex(*r[-1]) for r in c['tleads']]))) ** 2
    for name, its in exact_currents(c, ctx, s):
        # what is left of the iteration, and the error of the energy grid from one with half as many points
        fine, half = its
        for k, want in ((0, I), (1, IE)):
            got = fine[-1][k]
            left = max(abs(fine[-1][x] - fine[-2][x]).max() for x in (0, k))
            grid = max(abs(fine[-1][x] - half[-1][x]).max() for x in (0, k))
            lim = 1e-3 * gam + 4 * left + 2 * grid
            if not abs(got - want).max() < lim:
                fail.append('%s: %s %s after %d iterations, exact %s (limit %g)' % (name, ('current', 'energy current')[k], got, c['niter'], want, lim))
    fail += against_terms(c, ctx, s, k1)
    return {'fail': fail, 'n': 2 * c['nleads'], 'N': N}


def exact_currents(c, ctx, s):
    """Currents after every iteration on the grid and on one half as fine: of the specification and, for one level, of the system."""
    q = [0, 1] if c['nsingle'] == 1 else [0, 1, 1, 2]
    lab = sorted(range(len(q)), key=lambda b: sum(s.si.get_state(b)))
    E, T = np.array(s.Ea)[lab], np.array(s.Tba)[:, lab][:, :, lab]

    def spec(k):
        eq = neumann2.Equation(ctx['tab'][tuple(q)], E, q, T, c['mulst'], c['tlst'], c['dband'][0], k)
        return [eq.stationary(a)[2:4] for a in eq.iterations(c['niter'])]
    yield 'specification', (spec(c['kpnt']), spec(c['kpnt'] // 2))
    if c['nsingle'] == 1:
        with contextlib.redirect_stdout(io.StringIO()):
            g = system.build(c, kpnt=c['kpnt'] // 2)
            g.solve(niter=c['niter'])
        yield 'system', tuple([(x.current, x.energy_current) for x in y.iters] for y in (s, g))


# ------------------------------------------------------------------ the equation
def terms_case(rng, quick, i):
    impl = ('2vN', 'py2vN')[i % 2]
    if i % 4 == 3:                                          # many-body input
        n, nl = int(rng.integers(2, 8)), int(rng.integers(1, 4))
        low = int(rng.integers(0, 3))
        q = sorted(low + int(x) for x in rng.integers(0, 5, n))
        if rng.random() < .7:
            q = [sorted(set(q)).index(x) + low for x in q]          # no gaps
        q = [int(x) for x in (rng.permutation(q) if rng.random() < .5 else q)]
        T = np.zeros((nl, n, n), complex)
        for a in range(n):
            for b in range(n):
                if q[a] == q[b] + 1:
                    T[:, a, b] = .3 * (rng.normal(size=nl) + 1j * rng.normal(size=nl))
                    T[:, b, a] = T[:, a, b].conj()
        mu, temp, band = system.random_leads(rng, nl)
        c = dict(Ea=[float(x) for x in rng.normal(size=n)], Na=q, Tba=system.fromarray(T), mulst=mu, tlst=temp, dband=band, nleads=nl)
    else:
        N = int(rng.choice([1, 2, 2, 2, 3]))
        nl = int(rng.choice([1, 2, 2, 3])) if N < 3 else int(rng.choice([1, 2]))
        c = system.random_system(rng, N, nl, impl, str(rng.choice(['charge', 'Lin'])), real=bool(rng.random() < .25))
        if N > 1 and rng.random() < .3:
            U = rng.normal(size=2)
            c['coulomb'] = c['coulomb'] + [[0, 1, 0, 1, float(U[0])]] if rng.random() < .5 else []
        c['drop'] = []
        if N > 1 and rng.random() < .3:
            c['drop'] = sorted(int(x) for x in rng.choice(2 ** N, int(rng.integers(1, 3)), replace=False))
        if rng.random() < .2:
            c['dE'] = float(1.5 * rng.random() + .2)
    n = 2 ** c['nsingle'] if 'nsingle' in c else len(c['Na'])
    c.update(kind='terms', kerntype=impl, kpnt=int(rng.choice([10, 12, 15] if n > 5 else [12, 20, 30, 40])),
             niter=int(rng.integers(1, 4 if quick or n > 5 else 6)), symq=bool(rng.random() < .7))
    if rng.random() < .2:                                   # far from symmetric bands
        x = float(rng.normal() * 4)
        c['dband'] = [[a + x, b + x] for a, b in c['dband']]
    return c


def kept(c, q):
    """Every way in which states can remain."""
    import itertools
    n = [q.count(x) for x in sorted(set(q))]
    for k in itertools.product(*[range(x + 1) for x in n]):
        r = [x - q[0] for x, m in zip(sorted(set(q)), k) for _ in range(m)]
        if r:
            yield tuple(x - r[0] for x in r)


def compare_terms(c, ctx, s, k1, swapped):
    """Differences from the equation of Neumann2.tla."""
    si = s.si
    where = {int(b): p for p, x in enumerate(si.statesdm) for b in x}
    qn = [x[0] for x in system.quantum_numbers(s)]
    lab = sorted(where, key=lambda b: qn[b])
    q = [qn[b] - qn[lab[0]] for b in lab]
    E, T = np.array(s.Ea)[lab], np.array(s.Tba)[:, lab][:, :, lab]
    band = (min(x[0] for x in c['dband']), max(x[1] for x in c['dband']))
    eq = neumann2.Equation(ctx['tab'][tuple(q)], E, q, T, c['mulst'], c['tlst'], band, c['kpnt'])
    i1 = [si.get_ind_dm1(lab[x], lab[y], where[lab[y]]) for x, y in eq.up]
    i0 = [si.get_ind_dm0(lab[x], lab[y], where[lab[x]]) for x, y in eq.even]
    fail = []
    if len(k1) != c['niter'] or len(s.iters) != c['niter']:
        return ['%d iterations instead of %d' % (len(k1), c['niter'])]
    for j, a in enumerate(eq.iterations(c['niter'], swapped)):
        if len(i1):
            d = abs(k1[j][:, :, i1][:, :, :, i0] - a).max()
            if not d <= 1e-8 * abs(a).max():
                fail.append('iteration %d: energy-resolved amplitudes differ by %g of %g' % (j, d, abs(a).max()))
        phi0, phi1, I, W, gap = eq.stationary(a)
        if gap < 1e-7:
            continue
        it = arrays(s.iters[j])
        rel = 1e-11 / gap + 1e-8
        for name, x, y in (('phi0', it['phi0'][i0], phi0), ('phi1', it['phi1'][:, i1], phi1), ('current', it['current'], I),
                           ('energy_current', it['energy_current'], W), ('heat_current', it['heat_current'], W - I * np.array(c['mulst']))):
            size = abs(y).max(initial=0.) + (abs(phi1).max(initial=0.) * abs(T).max() * max(1., abs(eq.grid).max()) if 'current' in name else 1.)
            if not abs(x - y).max(initial=0.) <= rel * size:
                fail.append('iteration %d: %s differs by %g' % (j, name, abs(x - y).max()))
    return fail


def against_terms(c, ctx, s, k1):
    fail = compare_terms(c, ctx, s, k1, True)
    if fail and c['niter'] > 1 and not compare_terms(c, ctx, s, k1, False):
        # what the recorded defect makes of it, and nothing else
        fail = ['[key=2vN-conjugate-of-coherences] ' + fail[0]]
    return fail


def terms(c, ctx):
    k1 = []
    with contextlib.redirect_stdout(io.StringIO()):
        s = system.build(c)
        if c.get('drop'):
            s.remove_fock_states(c['drop'])
        if c.get('dE') is not None:
            s.solve(masterq=False)
            s.remove_states(c['dE'])
        s.solve(niter=c['niter'], func_iter=lambda a: k1.append(np.array(a.phi1k)), **(dict(qdq=False) if 'Ea' in c else {}))
    return {'fail': against_terms(c, ctx, s, k1), 'n': 6 * c['niter']}


def run(c, ctx):
    return {'history': history, 'exact': lambda c: exact(c, ctx), 'terms': lambda c: terms(c, ctx)}[c['kind']](c)
