"""C10: all ways of Lattice.tla to calculate one configuration give one result, for any number of threads."""
import json
import os
import subprocess
import sys

import numpy as np

from checks import firstorder as fo
from harness import fock, scratch, system, tlc
from harness.runner import Skip

PROPERTY = 'C10'
ASSUMPTIONS = [
    'the stationary state is unique (other cases are counted as undetermined)',
    'iterative solvers are compared within the accuracy at which they stop',
    'the Pauli equation is compared among index schemes that resolve degenerate multiplets alike',
    'threads: the schedules that the machine produces with 1 to 16 threads, repeated',
]
TIME = {'quick': 400, 'thorough': 2800}
THREADS = (1, 2, 3, 5, 8, 16)
ROWS = ('SPECIFICATION Spec\nCONSTANTS Tasks = %d\nThreads = %d\nCells = 3\nDesign = "%s"\nINVARIANTS Right Inside\n'
        'PROPERTY Ends\nCHECK_DEADLOCK FALSE\n')


def make(rng, apr, spin, real, bath, big):
    ix = {'none': 'charge'}.get(spin, spin)
    N = int(rng.choice([2, 3, 3])) if spin == 'none' else (4 if rng.random() < (0.6 if big else 0.25) else 2)
    if apr in ('2vN', 'RTD'):
        N = int(rng.choice([1, 2, 2, 3])) if apr == 'RTD' else int(rng.choice([1, 2, 2]))
    nl = int(rng.choice([1, 2, 3])) if spin == 'none' else 2
    itype = int(rng.choice([0, 1, 1, 2, 2, 3, 3])) if apr in fo.FIRST else 1
    c = system.random_system(rng, N, nl, apr, ix, itype=itype, real=real)
    if apr in ('RTD', '2vN'):
        c['dband'] = [[-30., 30.]] * nl if apr == 'RTD' else [[-6., 6.]] * nl
        c['kpnt'] = 24
    if apr == 'RTD':
        c['off_diag_corrections'] = bool(rng.random() < 0.7)
        if rng.random() < 0.4:
            c['tlst'] = [c['tlst'][0]] * nl
    if bath:
        v, t, band = system.random_baths(rng, N, 1, real, spin=ix if spin != 'none' else None)
        c.update(nbaths=1, velph=v, tlst_ph=t, dband_ph=band, itype_ph=2)
    elif rng.random() < 0.4 and apr in fo.FIRST:
        if rng.random() < 0.5:
            c['keep'] = 0.75
        elif apr != 'Pauli':
            c['coh'] = float(rng.choice([0., 0.4]))
    c['phys'] = dict(apr=apr, spin=spin, real=real, bath=bath)
    return c


def cases(tier, rng):
    ways = {}
    for d in tlc.run('LatticeGen', outputs=['ways.ndjson'], workers=1).data['ways.ndjson']:
        ways.setdefault(json.dumps(d['c'], sort_keys=True), []).append(d['w'])
    out, big = [], tier != 'quick'
    for key in sorted(ways):
        ph = json.loads(key)
        for r in range((1 if ph['spin'] != 'none' else 2) if not big else 12):
            c = make(rng, ph['apr'], ph['spin'], ph['real'], ph['bath'], big)
            W = sorted(ways[key], key=lambda w: json.dumps(w, sort_keys=True))
            k = len(W) if ph['apr'] in ('2vN', 'RTD') else (8 if not big else 48)
            pick = [W[i] for i in rng.permutation(len(W))[:k]]
            # every implementation with every scheme at least once
            for w in W:
                if not any((w['impl'], w['ix'], w['mfree']) == (v['impl'], v['ix'], v['mfree']) for v in pick):
                    pick.append(w)
            c.update(ways=pick, kind='ways-' + ph['apr'])
            out.append(c)
    for r in range(14 if not big else 80):
        apr = [a for a in ('Pauli', 'Lindblad', 'Redfield', '1vN', 'RTD', 'RTD', 'elph')][r % 7]
        bath = apr == 'elph'
        if bath:
            apr = str(rng.choice(['Lindblad', '1vN', 'Pauli', 'Redfield']))
        c = make(rng, apr, 'none', False, bath, big)
        N = 3 if apr == 'RTD' else 4
        h = system.random_system(rng, N, 2, apr, 'charge', itype=c['itype'])
        for k in ('nsingle', 'hsingle', 'coulomb', 'nleads', 'tleads', 'mulst', 'tlst', 'dband'):
            c[k] = h[k]
        if apr == 'RTD':
            c['dband'] = [[-30., 30.]] * 2
        if bath:
            v, t, band = system.random_baths(rng, N, 1)
            c.update(velph=v, tlst_ph=t, dband_ph=band)
        c.pop('keep', None)
        c.pop('coh', None)
        c['itype'] = 1 if apr == 'RTD' else 2
        c['mfreeq'] = bool(apr != 'RTD' and rng.random() < 0.25)
        c['kind'] = 'threads-' + apr
        out.append(c)
    return out


def prepare(cases, info):

    for design in ('rows', 'copies'):
        for tasks, threads in ((4, 3), (2, 4), (5, 2)):
            tlc.run('ParallelRows', cfg=ROWS % (tasks, threads, design), workers=4)
    if tlc.run('ParallelRows', cfg=ROWS % (3, 2, 'shared'), check=False).ok:
        raise AssertionError('the model does not tell races')
    fo.preload([c for c in cases if c['kind'].startswith('ways') and c['kerntype'] in fo.FIRST])
    th = [c for c in cases if c['kind'].startswith('threads')]
    out = {}
    if th:
        path = os.path.join(scratch.workdir(), 'threads.json')
        with open(path, 'w') as f:
            json.dump(th, f)
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        src = os.path.join(scratch.workdir(), 'src')
        procs = []
        for k in THREADS:
            dest = path + '.%d' % k
            env = dict(os.environ, OMP_NUM_THREADS=str(k), OPENBLAS_NUM_THREADS='1', OMP_WAIT_POLICY='passive',
                       PYTHONPATH=os.pathsep.join([src, root]), PYTHONDONTWRITEBYTECODE='1')
            procs.append((k, dest, subprocess.Popen([sys.executable, '-m', 'harness.threads', path, dest], cwd=root,
                                                    env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        for k, dest, p in procs:
            try:
                rc = p.wait(timeout=500)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = 'time limit'
            if os.path.exists(dest):
                with open(dest) as f:
                    out[k] = {c['id']: r for c, r in zip(th, json.load(f))}
            else:
                out[k] = {c['id']: 'the process ended with %s' % rc for c in th}
    return out


# ------------------------------------------------------------------ ways
def half_input(c):
    """The input of one spin direction, for symmetry='spin'."""
    h, l = c['nsingle'] // 2, c['nleads'] // 2
    d = dict(c, symmetry='spin', hsingle=[r for r in c['hsingle'] if r[0] < h and r[1] < h],
             coulomb=[r for r in c['coulomb'] if max(r[:4]) < h], tleads=[r for r in c['tleads'] if r[0] < l and r[1] < h],
             mulst=c['mulst'][:l], tlst=c['tlst'][:l], dband=c['dband'][:l])
    # the interaction of an orbital with itself is not among the elements between different orbitals
    seen = {tuple(r[:4]) for r in d['coulomb']}
    for r in c['coulomb']:
        m, n = r[0] % h, r[1] % h
        if (m, n, n, m) not in seen and m <= n:
            seen.add((m, n, n, m))
            d['coulomb'] = d['coulomb'] + [[m, n, n, m, r[4]]]
    if c.get('nbaths'):
        d['velph'] = [r for r in c['velph'] if r[1] < h and r[2] < h]
    return d


def thresholds(s, c):
    """Energies at which states and coherences are cut, from all pairs of equal charge: the same for every scheme."""
    s.solve(masterq=False)
    E = np.array(s.Ea)
    n = len(E)
    Q = [q[0] for q in system.quantum_numbers(s)]
    keep, dE = np.ones(n, bool), None
    srt = np.sort(E - E.min())
    for j in range(min(max(int(round((c.get('keep') or 1.) * n)), 1), n), n):
        if srt[j] - srt[j - 1] > 1e-3:
            dE = 0.5 * (srt[j] + srt[j - 1])
            keep = E - E.min() < dE
            break
    cut = None
    if c.get('coh') is not None:
        g = [0.] + sorted(abs(E[a] - E[b]) for a in range(n) for b in range(a) if keep[a] and keep[b] and Q[a] == Q[b])
        g.append(g[-1] + 1.)
        where = [k for k in range(len(g) - 1) if g[k + 1] - g[k] > 1e-3]
        k = min(where, key=lambda k: abs(k - c['coh'] * (len(g) - 1)))
        cut = 0.5 * (g[k] + g[k + 1])
    return dE, cut


def apply(s, cuts):
    """Restricts a system; returns (retained labels, largest energy difference of a coherence)."""
    dE, cut = cuts
    ret = list(range(s.si.nmany))
    if dE is None and cut is None:
        return ret, cut
    s.solve(masterq=False)
    E = np.array(s.Ea)
    if dE is not None:
        s.remove_states(dE)
        ret = [int(b) for b in ret if E[b] - E.min() < dE]
    if cut is not None:
        s.remove_coherences(cut)
    return ret, cut


def solve(c, w, cuts=None):
    """Result of one way: density matrix in the Fock basis and currents, None where there is no success."""
    d = half_input(c) if w['input'] == 'spin' else dict(c)
    apr = c['phys']['apr']
    d.update(kerntype='py' + apr if w['impl'] == 'py' else apr, indexing=w['ix'], symq=w['symq'], mfreeq=w['mfree'],
             solmethod=None if w['solm'] == 'none' else w['solm'], mtype_qd=w['type'], mtype_leads=w['type'])
    s = system.build(d)
    for k, v in dict(kerntype=d['kerntype'], indexing=w['ix'], symq=w['symq'], mfreeq=w['mfree']).items():
        if getattr(s, k) != v:
            return dict(fail='%s is %s although %s was asked for' % (k, getattr(s, k), v))
    if cuts is None:
        cuts = thresholds(s, c) if c.get('keep') is not None or c.get('coh') is not None else (None, None)
    cut = apply(s, cuts)
    np_ = int(s.si.npauli)
    if w['start'] == 'mixed':
        s.phi0_init = np.concatenate([np.full(np_, 1. / np_), np.full((s.si.ndm0r if apr != 'Pauli' else np_) - np_, 0.01)])
    s.norm_row = dict(first=0, middle=np_ // 2, last=np_ - 1)[w['norm']]
    s.solve(**(dict(niter=3) if apr == '2vN' else {}))
    if not s.success:
        return dict(success=False, s=s, cut=cut, cuts=cuts)
    W = fock.eigenvectors(s)
    rho = system.density_matrix(s)
    return dict(success=True, s=s, cut=cut, cuts=cuts, rho=W @ rho @ W.conj().T,
                cur=np.array([s.current, s.energy_current, s.heat_current]))


def run_ways(c):
    apr = c['phys']['apr']
    first = dict(impl='c', ix='charge' if c['phys']['spin'] == 'none' or apr != 'Pauli' else 'sz', input='full',
                 type='complex', symq=True, norm='first', solm='none', mfree=False, start='none')
    if apr == 'Pauli' and c['phys']['spin'] == 'sz':
        first['ix'] = 'charge'
    ref = solve(c, first)
    if ref.get('fail'):
        return {'fail': [ref['fail']]}
    gap, noise, slack = 1., 1e-9, 1e-4
    if apr in fo.FIRST:
        s = ref['s']
        E = np.array(s.Ea)
        ret, cut = ref['cut'][0], ref['cut'][1]
        eq, p, cf = fo.equation(s, dict(c, kerntype=apr), ret, cut)
        _, gap = eq.solve()
        if gap < 1e-6:
            raise Skip('nearly degenerate stationary state')
        noise = (5e-6 if eq.quad else 1e-10) / gap
        slack = 1e-4 / (gap * np.linalg.norm(eq.L, 2))
        if noise > 1e-2:
            raise Skip('the accuracy of the integrals does not determine the stationary state')
    if not ref['success']:
        return {'fail': ['no success of the way %s' % first]}
    if apr == 'Pauli':
        # without coherences the states of a degenerate block must be told apart by the scheme
        E, qn = np.array(ref['s'].Ea), system.quantum_numbers(ref['s'])
        if any(qn[a] == qn[b] and abs(E[a] - E[b]) < 1e-6 for a in range(len(E)) for b in range(a)):
            raise Skip('degenerate states in the Pauli equation')
    fail, n = [], 0
    for w in c['ways']:
        got = solve(c, w, ref['cuts'])
        if got.get('fail'):
            fail.append(got['fail'])
            continue
        if not got['success']:
            # an iterative method may give up
            if not w['mfree']:
                fail.append('no success of the way %s' % w)
            continue
        tol = noise
        if apr == '2vN':
            tol = 1e-7
        if w['mfree']:
            tol = max(noise, slack)
            if tol > 1e-2:
                continue
        n += 1
        d = abs(got['rho'] - ref['rho']).max()
        if not d <= tol * (1 + abs(ref['rho']).max()):
            fail.append('density matrix differs by %g (limit %g) between the ways %s and %s' % (d, tol, first, w))
        for k, name in enumerate(('current', 'energy_current', 'heat_current')):
            a, b = got['cur'][k], ref['cur'][k]
            if not np.isfinite(b).all() and not np.isfinite(a).all():
                continue
            size = abs(np.array(ref['s'].Tba)).max() ** 2 * 2 * np.pi * (1 + abs(np.array(ref['s'].Ea)).max()) + abs(b).max()
            if not abs(a - b).max() <= tol * size:
                fail.append('%s is %s and %s (limit %g) in the ways %s and %s' % (name, b, a, tol * size, first, w))
    return {'fail': fail, 'n': n}


# ------------------------------------------------------------------ threads
def run_threads(c, ctx):
    fail, n = [], 0
    ref = ctx[1][c['id']]
    if isinstance(ref, str):
        return {'fail': [ref]}
    for k in THREADS[1:]:
        got = ctx[k][c['id']]
        if isinstance(got, str):
            fail.append('with %d threads: %s' % (k, got))
            continue
        for key in ('rho', 'cur'):
            a, b = np.array(got[key]), np.array(ref[key])
            if key == 'cur' and a.shape == b.shape and (np.isfinite(a) == np.isfinite(b)).all():
                # the energy current of RTD is undefined for complex products of amplitudes
                a, b = np.nan_to_num(a), np.nan_to_num(b)
            n += 1
            tol = 1e-9
            if c.get('mfreeq'):
                tol = 1e-5
            if a.shape != b.shape or not abs(a - b).max() <= tol * (1e-3 + abs(b).max()):
                fail.append('%s with %d threads differs from the one with a single thread: %s'
                            % (key, k, abs(a - b).max() if a.shape == b.shape else a.shape))
        if got['spread'] > (1e-10 if not c.get('mfreeq') else 1e-5):
            fail.append('repeated solutions with %d threads differ by %g' % (k, got['spread']))
    return {'fail': fail, 'n': n}


def run(c, ctx):
    if c['kind'].startswith('threads'):
        return run_threads(c, {int(k): v for k, v in ctx.items()})
    return run_ways(c)
