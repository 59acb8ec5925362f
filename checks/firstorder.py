"""Shared by C07, C08 and C13: random systems solved by the code and judged with the term tables that
TLC generates from MasterEq.tla for exactly the retained states and coherences."""
import numpy as np

from harness import oracle, system
from harness.runner import Skip

FIRST = system.FIRST


def restrict(s, c):
    """Applies the restriction of the case; returns (retained labels, largest coherence energy)."""
    out = _restrict(s, c)
    if c.get('norm') is not None:
        s.norm_row = int(c['norm'] * s.si.npauli)
    return out


def _restrict(s, c):
    n = s.si.nmany
    ret, cut = list(range(n)), None
    if c.get('keep') is None and c.get('coh') is None:
        return ret, cut
    s.solve(masterq=False)
    E = np.array(s.Ea)
    if c.get('keep') is not None:
        srt = np.sort(E - E.min())
        k = min(max(int(round(c['keep'] * n)), 1), n)
        if k < n:
            # between two well separated energies
            for j in range(k, n):
                if srt[j] - srt[j - 1] > 1e-3:
                    dE = 0.5 * (srt[j] + srt[j - 1])
                    s.remove_states(dE)
                    ret = [int(b) for b in range(n) if E[b] - E.min() < dE]
                    break
    if c.get('coh') is not None:
        qn = system.quantum_numbers(s)
        gaps = np.sort([abs(E[a] - E[b]) for a in ret for b in ret if a < b and qn[a] == qn[b]])
        if len(gaps):
            k = int(c['coh'] * len(gaps))
            hi = gaps[k] if k < len(gaps) else gaps[-1] + 1
            lo = gaps[k - 1] if k > 0 else 0.
            if hi - lo > 1e-3:
                cut = 0.5 * (hi + lo)
                s.remove_coherences(cut)
    return ret, cut


def apr_of(c):
    k = c['kerntype']
    return k[2:] if k.startswith('py') else k


def equation(s, c, ret, cut):
    qn = system.quantum_numbers(s)
    E, T = np.array(s.Ea), np.array(s.Tba)
    ph = bool(c.get('nbaths'))
    cf = system.config(apr_of(c), qn, ph, ret, cut, E)
    t = system.terms([cf])[0]
    kw = {}
    if ph:
        dos = [(lambda x, a=a, p=p: a * x ** p) for a, p in c['dos']] if c.get('dos') else None
        kw = dict(V=np.array(s.Vbbp), temp_ph=c['tlst_ph'], band_ph=c['dband_ph'], itype_ph=c.get('itype_ph', 0),
                  dos=dos, eps=c.get('eps_elph', 1e-6))
    p = oracle.Params(E, T, c['mulst'], c['tlst'], c['dband'], c['itype'], **kw)
    eq = oracle.Equation(apr_of(c), t, p, cf['pairs'])
    eq.terms = t
    eq.mfree = bool(c.get('mfreeq'))
    eq.quad = uses_quad(c['kerntype'], c['itype'], c.get('nbaths'), c.get('itype_ph', 0))
    return eq, p, cf


def uses_quad(kern, itype, nbaths, itype_ph):
    return ('1vN' in kern or 'Redfield' in kern) and (itype == 0 or bool(nbaths) and itype_ph == 0)


def tolerance(c):
    """The code integrates principal values to 1e-6."""
    if c.get('mfreeq'):
        return 2e-4
    if uses_quad(c['kerntype'], c['itype'], c.get('nbaths'), c.get('itype_ph', 0)):
        return 5e-6
    return 1e-9


def solved(c):
    """Solves the case; returns the system, the equation and the reported density matrix."""
    s = system.build(c)
    if c.get('fockrem'):
        s.remove_fock_states(list(c['fockrem']))
    if c.get('copy'):
        s.make_kern_copy = True
    ret, cut = restrict(s, c)
    s.solve()
    eq, p, cf = equation(s, c, ret, cut)
    _, gap = eq.solve()
    if not s.success:
        # far outside the bands all rates vanish up to the accuracy of the integrals
        some = abs(eq.L).max() > 1e-9 * abs(p.T).max() ** 2
        if gap > 1e-7 and some and not c.get('mfreeq'):
            raise AssertionError('solve reports failure although the equation has a unique solution (gap %g)' % gap)
        raise Skip('no unique stationary state')
    if gap < 1e-7:
        raise Skip('nearly degenerate stationary state')
    rho = system.density_matrix(s)
    return s, eq, p, cf, rho, gap


def check_state(s, eq, cf, rho, tol):
    fail = []
    if not np.isfinite(rho).all():
        return ['density matrix is not finite']
    allowed = {tuple(x) for x in cf['pairs']}
    n = len(rho)
    stray = [(b, bp) for b in range(n) for bp in range(n) if (b, bp) not in allowed and rho[b, bp] != 0]
    if stray:
        fail.append('element %s is reported as %s although it is not part of the equation'
                    % (stray[0], rho[stray[0]]))
    herm = abs(rho - rho.conj().T).max()
    if herm > 1e-12:
        fail.append('density matrix is not hermitian: %g' % herm)
    tr = np.trace(rho)
    if abs(tr - 1) > max(1e-10, tol if tol > 1e-5 else 0):
        fail.append('trace is %s' % tr)
    if getattr(eq, 'mfree', False):
        # the iterative solvers stop when the residual is below 6e-6 in absolute terms
        tol = max(tol, 2e-2 / (abs(eq.L).max() * abs(rho).max() + 1e-300))
    rel, ab = eq.residual(rho)
    if getattr(eq, 'quad', False) and ab < 2e-6 * abs(rho).max():
        return fail
    if rel > tol:
        fail.append('master equation violated: relative residual %g (limit %g)' % (rel, tol))
    return fail


def check_kernel(s, eq, c, tol):
    """The reported kernel, column by column, against the equation."""
    py, mfree = c['kerntype'].startswith('py'), bool(c.get('mfreeq'))
    phi0, si = s.phi0, s.si
    size = len(phi0)
    if size > 80:
        return [], 0
    # the matrix-free form lets the equation act on a vector; imaginary parts of the result have the other sign
    K = np.array([np.array(s.appr.generate_vec(x)) for x in np.eye(size)]).T if mfree else np.array(s.kern)
    keep = np.array(phi0)
    want, norm = np.zeros((size, size)), np.zeros(size)
    try:
        for k in range(size):
            phi0[:] = 0.
            phi0[k] = 1.
            rho = system.density_matrix(s)
            norm[k] = np.trace(rho).real
            v = eq.L @ eq.vector(rho)
            for i, pair in enumerate(eq.pairs):
                b, bp = pair
                q = si.ind_qn[b][0]
                r = si.get_ind_dm0(b, bp, q)
                if si.get_ind_dm0(b, bp, q, maptype=2):
                    want[r, k] = v[i].real
                    if r >= si.npauli and size > si.npauli:
                        want[si.ndm0 - si.npauli + r, k] = -v[i].imag if mfree else v[i].imag
    finally:
        phi0[:] = keep
    rows = list(range(size))
    fail = []
    if K.shape[0] > size or not py or mfree:
        # the normalisation is an equation of its own or stays in the kernel of the compiled approaches
        r = size if K.shape[0] > size else s.norm_row
        if mfree:
            norm = norm - 1
        if abs(K[r] - norm).max() > 1e-12:
            fail.append('row %d of the kernel is %s, expected the normalisation %s' % (r, K[r], norm))
        rows = [x for x in rows if x != r]
    d = abs(K[rows] - want[rows])
    top = abs(want).max() + abs(eq.absL).max()
    if d.size and d.max() > tol * top:
        i, k = np.unravel_index(d.argmax(), d.shape)
        fail.append('element %d, %d of the kernel is %s, expected %s (limit %g)' % (rows[i], k, K[rows[i], k], want[rows[i], k], tol * top))
    return fail, d.size


def check_currents(s, eq, p, c, rho, tol):
    """Reported currents against the functionals of the specification; conservation laws."""
    fail, nl = [], p.nl
    cur, ene, heat = (np.array(x) for x in (s.current, s.energy_current, s.heat_current))
    for x in (cur, ene, heat):
        if x.shape != (nl,) or not np.isfinite(x).all():
            return ['currents are %s' % x]
    C, CE, size = eq.currents(rho)
    # a current far below the golden-rule rates is determined up to rounding of these only
    size = size + 1e-3 * size.max() + 1e-6 * abs(p.T).max() ** 2
    d = abs(cur - C) / size
    if d.max() > tol:
        fail.append('particle currents %s, expected %s' % (cur, C.real))
    esc = size * (1 + abs(p.E).max())
    d = abs(ene - CE) / esc
    if d.max() > tol:
        fail.append('energy currents %s, expected %s' % (ene, CE.real))
    h = ene - cur * np.array(p.mu)
    if (abs(heat - h) / (abs(ene) + abs(cur * np.array(p.mu)) + 1e-300)).max() > 1e-12:
        fail.append('heat currents %s, expected %s' % (heat, h))
    if abs(cur.sum()) > 10 * tol * size.max():
        fail.append('particle currents do not balance: %s' % cur)
    if apr_of(c) == 'Pauli' and not c.get('nbaths') and abs(ene.sum()) > 10 * tol * esc.max():
        fail.append('energy currents of the Pauli equation do not balance: %s' % ene)
    return fail


def check_phi1(s, eq, p, cf, c, rho, tol):
    """Every first-order amplitude that the query returns, and those of the array phi1 where one exists."""
    fail, n, k = [], len(p.E), 0
    if apr_of(c) not in ('1vN', 'Redfield'):
        return [], 0
    ch, ret = cf['charge'], set(cf['ret'])
    for l in range(p.nl):
        want, size = oracle.amplitudes(eq.terms, p, l, rho)
        top = size.max() + 1e-300
        for a in range(n):
            for b in range(n):
                if a not in ret or b not in ret or ch[a] != ch[b] + 1:
                    continue
                got = s.get_phi1(l, a, b)
                k += 1
                if got is None or not abs(got - want[a, b]) <= tol * (size[a, b] + 1e-3 * top):
                    fail.append('phi1 of lead %d between %d and %d is %s, expected %s' % (l, a, b, got, want[a, b]))
    return fail, k


def preload(cases, unrestricted=True):
    """Term tables of the cases without restriction, generated beforehand."""
    configs = []
    for c in cases:
        if c.get('keep') is None and c.get('coh') is None and not c.get('fockrem'):
            s = system.build(c)
            configs.append(system.config(apr_of(c), system.quantum_numbers(s), bool(c.get('nbaths'))))
    system.preload(configs)


def py(k, rng, share=0.3):
    return ('py' + k) if rng.random() < share else k


def unusual(c, rng):
    """Inputs away from the generic ones: cold leads, degenerate levels, missing Fock states, distant levels."""
    x = rng.random()
    if x < 0.12:
        f = float(10. ** -rng.integers(1, 4))
        c['tlst'] = [t * f for t in c['tlst']]
    elif x < 0.24:
        # degenerate levels (the spin-symmetric systems are degenerate anyway)
        if c['indexing'] not in ('sz', 'ssq'):
            c['hsingle'] = [[i, i, 0.3] for i in range(c['nsingle'])]
            if rng.random() < 0.5:
                c['coulomb'] = [r[:4] + [1.5] for r in c['coulomb']]
    elif x < 0.34:
        for r in c['hsingle']:
            if r[0] == 0 and r[1] == 0:
                r[2] = r[2] + 50.
    elif x < 0.5 and c['indexing'] != 'ssq' and c['nsingle'] > 1:
        n = 2 ** c['nsingle']
        k = int(rng.integers(1, n // 2 + 1))
        c['fockrem'] = sorted(int(v) for v in rng.choice(n, size=k, replace=False))


def lead_cases(tier, rng, per):
    """Systems without phonon baths over approaches, sizes, indexings, integral types and restrictions."""
    out = []
    big = tier != 'quick'
    for apr in FIRST:
        for r in range(per):
            ix = ['charge', 'Lin', 'charge', 'sz', 'ssq'][r % 5]
            N = int(rng.choice([1, 2, 3] + ([4] if (big or r % 4 == 0) else [])))
            nl = int(rng.choice([1, 2, 2, 3]))
            if ix in ('sz', 'ssq'):
                N, nl = (4 if (r % 4 == 3 or (big and rng.random() < 0.5)) else 2), int(rng.choice([2, 4]))
            c = system.random_system(rng, N, nl, py(apr, rng), ix, itype=(r // 5) % 4,
                                     real=rng.random() < 0.25)
            if rng.random() < 0.5:
                c['norm'] = float(rng.random())
            unusual(c, rng)
            c['symq'] = bool(rng.random() < 0.75)
            c['kind'] = 'solve-' + apr
            if r % 3 == 1:
                c['keep'] = float(rng.choice([0.3, 0.5, 0.75]))
            if r % 3 == 2 and apr != 'Pauli':
                c['coh'] = float(rng.choice([0., 0.3, 0.6]))
                if rng.random() < 0.4:
                    c['keep'] = 0.75
            out.append(c)
    return out


def bath_cases(tier, rng, per):
    """Systems with phonon baths."""
    out = []
    big = tier != 'quick'
    for apr in FIRST:
        for r in range(per):
            ix = ['charge', 'charge', 'Lin', 'sz', 'ssq'][r % 5]
            N = int(rng.choice([2, 2, 3] + ([4] if big else [])))
            nl = int(rng.choice([1, 2, 3]))
            if ix in ('sz', 'ssq'):
                N, nl = (4 if (big or r % 10 == 3) else 2), int(rng.choice([2, 4]))
            real = bool(rng.random() < 0.2)
            c = system.random_system(rng, N, nl, py(apr, rng), ix, itype=int(rng.choice([0, 1, 2, 3, 2, 1])),
                                     real=real)
            nb = int(rng.choice([1, 1, 2]))
            v, t, band = system.random_baths(rng, N, nb, real, spin=(ix if ix in ('sz', 'ssq') else None),
                                             hermitian=rng.random() < 0.3)
            c.update(nbaths=nb, velph=v, tlst_ph=t, dband_ph=band, itype_ph=0 if r % 3 == 0 else 2)
            if rng.random() < 0.4:
                c['dos'] = [[0.5 + float(rng.random()), int(rng.integers(0, 3))] for _ in range(nb)]
            if rng.random() < 0.2:
                c['eps_elph'] = float(10. ** -rng.integers(3, 7))
            if rng.random() < 0.3:
                # low frequencies count as well
                c['dband_ph'] = [[0., b[1]] for b in c['dband_ph']]
                c['dos'] = [[0.7, 1 + int(rng.integers(0, 2))] for _ in range(nb)]
            unusual(c, rng)
            if rng.random() < 0.5:
                c['norm'] = float(rng.random())
            if r % 4 == 1:
                c['keep'] = float(rng.choice([0.5, 0.75]))
            if r % 4 == 2 and apr != 'Pauli':
                c['coh'] = float(rng.choice([0., 0.4]))
            c['kind'] = 'solve-' + apr
            out.append(c)
    return out
