"""C03: many-body Hamiltonian, energies and eigenvectors against the operator tables of Fock.tla."""
import numpy as np

from harness import fock, system

PROPERTY = 'C03'
ASSUMPTIONS = ['numbers of single-particle states up to 5 (quick) or 6 (thorough)',
               'eigenvector statements apply to hermitian Hamiltonians']
TIME = {'quick': 300, 'thorough': 2400}


def random_keys(rng, N, n):
    keys = set()
    for _ in range(n):
        m, k = rng.choice(N, 2, replace=False)
        a, b = rng.choice(N, 2, replace=False)
        keys.add((int(m), int(k), int(a), int(b)))
    return sorted(keys)


def cases(tier, rng):
    out = []
    for i in range(240 if tier == 'quick' else 2500):
        N = int(rng.choice([1, 2, 3, 4, 4, 5] if tier == 'quick' else [1, 2, 3, 4, 4, 5, 6]))
        ix = str(rng.choice(['Lin', 'charge', 'charge', 'sz', 'ssq'])) if N % 2 == 0 else \
            str(rng.choice(['Lin', 'charge']))
        real = bool(rng.random() < 0.3)
        spin = ix if ix in ('sz', 'ssq') else None
        c = dict(kind='hermitian-' + ix, nsingle=N, indexing=ix, nleads=0, tleads=[], mulst=[], tlst=[], dband=[],
                 herm_hs=bool(rng.random() < 0.7), herm_c=bool(rng.random() < 0.5), m_less_n=bool(rng.random() < 0.5),
                 mtype_qd='float' if real and rng.random() < 0.5 else 'complex', kerntype='Pauli')
        h, U = system.random_dot(rng, N, real, spin)
        scale = 10. ** float(rng.choice([-2, 0, 0, 2]))
        h = [r[:2] + [[x * scale for x in r[2]] if isinstance(r[2], list) else r[2] * scale] for r in h]
        if not c['herm_hs']:
            h += [[r[1], r[0], [r[2][0], -r[2][1]] if isinstance(r[2], list) else r[2]] for r in h if r[0] != r[1]]
        elif spin != 'ssq' and rng.random() < 0.3:
            # the conjugate one of a pair, or both
            h = [[r[1], r[0], r[2]] if rng.random() < 0.5 else r for r in h]
        if N > 1 and spin is None and rng.random() < 0.6:
            # arbitrary two-body elements
            keys = random_keys(rng, N, int(rng.integers(1, 8)))
            pick = {tuple(r[:4]): r[4] for r in U}
            for m, n, k, l in keys:
                v = system.z(rng, 1., real)
                diag = (m == l and n == k)
                if diag:
                    v = v[0] if isinstance(v, list) else v
                pick[(m, n, k, l)] = v
                conj = c['herm_c'] and not diag and not (c['m_less_n'] and l > k)
                if not diag and not conj and rng.random() < 0.8:
                    if (l, k, n, m) != (m, n, k, l):
                        pick[(l, k, n, m)] = [v[0], -v[1]] if isinstance(v, list) else v
            U = [list(k) + [v] for k, v in pick.items()]
        if spin == 'sz' and N >= 4 and rng.random() < 0.5:
            # exchange and pair hopping, which conserve the spin projection
            a, b = 0, 1
            d = N // 2
            v = system.z(rng, 0.5, real)
            conj = [v[0], -v[1]] if isinstance(v, list) else v
            U = [r for r in U] + [[a, b + d, a + d, b, v]]
            if not (c['herm_c'] and not (c['m_less_n'] and b > a + d)):
                U += [[b, a + d, b + d, a, conj]]
        c['hsingle'], c['coulomb'] = h, U
        if ix != 'ssq' and rng.random() < 0.35:
            n = 2 ** N
            k = int(rng.integers(1, max(2, n // 2)))
            c['fockrem'] = sorted(int(x) for x in rng.choice(n, k, replace=False))
            c['split'] = bool(rng.random() < 0.5)
        if rng.random() < 0.3:
            c['baths'] = True
        c['piece'] = int(rng.integers(1 << 30))
        out.append(c)
    return out


def prepare(cases, info):
    return fock.tables({c['nsingle'] for c in cases}, info)


def run(c, ctx):
    F = ctx[c['nsingle']]
    s = system.build(c, **(dict(nbaths=1, velph=[], tlst_ph=[1.], dband_ph=[[0.1, 5.]]) if c.get('baths') else {}))
    rem = c.get('fockrem') or []
    if rem:
        if c.get('split'):
            for x in rem:
                s.remove_fock_states([x])
        else:
            s.remove_fock_states(list(rem))
    h, U = system.todict(c['hsingle']), system.todict(c['coulomb'])
    H = F.hamiltonian(h, U, c['herm_hs'], c['herm_c'], c['m_less_n'])
    L = fock.lin(s)
    fail, n = [], 0
    keep = np.array(sorted(set(range(F.dim)) - set(rem)), dtype=int)
    if sorted(L) != list(keep):
        return {'fail': ['the labels stand for the Fock states %s, expected %s' % (sorted(L), list(keep))]}
    scale = abs(H).max() + 1e-300
    herm = abs(H - H.conj().T).max() < 1e-12 * scale
    s.solve(masterq=False)
    seen = np.zeros_like(H, dtype=bool)
    for lab, foc, ham, vec in fock.blocks(s):
        if ham is None or not len(foc):
            continue
        ham = np.asarray(ham)
        want = H[np.ix_(L[foc], L[foc])]
        n += want.size
        seen[np.ix_(L[foc], L[foc])] = True
        if ham.shape != want.shape:
            fail.append('Hamiltonian block of the states %s has the shape %s' % (list(foc), ham.shape))
        elif abs(ham - want).max() > 1e-12 * scale:
            i, j = np.unravel_index(abs(ham - want).argmax(), want.shape)
            fail.append('Hamiltonian element between Fock states %d and %d is %s, expected %s'
                        % (L[foc[i]], L[foc[j]], ham[i, j], want[i, j]))
    if c['indexing'] != 'ssq' and abs(np.where(seen, 0, H)[np.ix_(keep, keep)]).max() > 1e-12 * scale:
        return {'fail': [], 'skip': 'Hamiltonian couples different blocks'}
    if fail or not herm:
        return {'fail': fail, 'n': n}
    E, W = np.array(s.Ea), fock.eigenvectors(s)
    n += 2 * E.size
    if E.shape != (len(keep),) or not np.isfinite(E).all():
        return {'fail': ['energies are %s' % E]}
    P = np.zeros(F.dim, bool)
    P[keep] = True
    Hr = H * P[:, None] * P[None, :]
    d = abs(W.conj().T @ W - np.eye(len(E))).max()
    if d > 1e-10:
        fail.append('eigenvectors are not orthonormal: %g' % d)
    d = abs(Hr @ W - W * E).max()
    if d > 1e-10 * scale * F.dim:
        fail.append('H v = E v is violated by %g (scale %g)' % (d, scale))
    if abs(W[~P]).max(initial=0.) > 0:
        fail.append('eigenvectors have components on removed Fock states')
    for a in range(len(E)):
        # every state lives in the charge (and spin projection) of its block
        w = abs(W[:, a]) ** 2
        q = (F.charge * w).sum()
        if abs(q - round(q)) > 1e-9 or (w * (F.charge - q) ** 2).sum() > 1e-9:
            fail.append('state %d has no definite charge' % a)
    d = abs(np.sort(E) - np.linalg.eigvalsh(Hr[np.ix_(keep, keep)])).max()
    if d > 1e-10 * scale * F.dim:
        fail.append('spectrum deviates by %g' % d)
    if not fail:
        n += piecewise(c, s, F, H, keep, scale, fail)
    return {'fail': fail, 'n': n}


def piecewise(c, s, F, H, keep, scale, fail):
    """The Hamiltonian is changed and its sectors are diagonalised one by one, in any order."""
    from qmeq import indexing
    N, ix, si = c['nsingle'], c['indexing'], s.si
    r = np.random.default_rng(c.get('piece', 0))
    shift = r.integers(-4, 5, N) * scale / 8
    if ix in ('sz', 'ssq'):
        shift[N // 2:] = shift[:N // 2]
    if ix == 'ssq' or r.random() < 0.5:
        s.add(hsingle={(i, i): float(x) for i, x in enumerate(shift)})
    else:
        s.qd.add(hsingle={(i, i): float(x) for i, x in enumerate(shift)})
    H = H + np.diag([sum(x for i, x in enumerate(shift) if f >> (N - 1 - i) & 1) for f in range(F.dim)])
    sectors = []
    for q in range(si.ncharge):
        if ix in ('Lin', 'charge'):
            sectors.append((q,))
        else:
            for sz in indexing.szrange(q, N):
                sectors += [(q, sz)] if ix == 'sz' else [(q, sz, x) for x in indexing.ssqrange(q, sz, N)]
    for k in r.permutation(len(sectors)):
        v, w = s.qd.diagonalise_charge(*sectors[k])
        foc = np.array(si.get_lst(*sectors[k][:2]), dtype=int)
        L = fock.lin(s)[foc] if len(foc) else foc
        if len(foc) and abs(H[np.ix_(L, L)] @ w - w * v).max(initial=0.) > 1e-10 * scale * F.dim:
            fail.append('H v = E v is violated by diagonalise_charge%s' % (sectors[k],))
    s.qd.set_Ea()
    E, W = np.array(s.Ea), fock.eigenvectors(s)
    P = np.isin(np.arange(F.dim), keep)
    if abs(W.conj().T @ W - np.eye(len(E))).max() > 1e-10:
        fail.append('eigenvectors of the separately diagonalised sectors are not orthonormal')
    if abs((H * P[:, None] * P) @ W - W * E).max() > 1e-10 * scale * F.dim:
        fail.append('H v = E v is violated after separate diagonalisation of the sectors')
    return 2 * len(E)
