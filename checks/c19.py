"""C19: covariance.  Covariance.tla tells what becomes of the currents when a system is rewritten; TLC checks its laws and
compares them with exact networks, and composes words of rewritings.  Every word is carried out on the inputs of a random
system, and the currents and the density matrix of the result are those that the word tells."""
import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from checks import c16, c17
from checks import firstorder as fo
from harness import fock, system, tlc
from harness.runner import Skip

PROPERTY = 'C19'
ASSUMPTIONS = ['up to 4 single-particle states, 6 leads and 3 baths after rewriting; words of up to 8 rewritings',
               'independent subsystems and particle-hole conjugation for the first-order approaches (conjugation also for 2vN)',
               'second-order approaches: fixed iterations on grids of up to 20 points; RTD with real amplitudes and equal bands',
               'wide bands']
TIME = {'quick': 400, 'thorough': 2800}
MC = 'SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Wide = %s\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'
RATE = ('Pauli', 'first')
GEN = 'SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n MaxN = 4\n MaxLeads = 6\n MaxBaths = 3\n MaxScale = 1\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'


# ------------------------------------------------------------------ cases
def interaction(rng, N, real):
    """Two-body elements without any symmetry."""
    U = {}
    for _ in range(4):
        m, n, k, l = (int(x) for x in rng.integers(0, N, 4))
        if m == n or k == l:
            continue
        v = .5 * (rng.normal() + (0 if real else 1j * rng.normal()))
        for key, x in (((m, n, k, l), v), ((l, k, n, m), np.conj(v))):
            U[key] = U.get(key, 0) + x
    return [list(k) + [system.fromarray(v)] for k, v in U.items()]


def case(rng, w, i):
    cls = w['cls']
    first = w['word'][0] if w['word'] else None
    N, nl, nb = w['start']
    spin, meth = cls['spin'], cls['meth']
    real = meth == 'RTD' or bool(rng.random() < .4)
    ix = spin if spin != 'no' else ('charge' if meth == 'RTD' else str(rng.choice(['charge', 'charge', 'Lin'])))
    kern = {'Pauli': 'Pauli', 'first': system.FIRST[1 + i % 3], '2vN': '2vN', 'RTD': 'RTD'}[meth]
    c = system.random_system(rng, N, nl, fo.py(kern, rng) if meth in RATE else kern, ix, real=real)
    c['tleads'] = system.random_tunnel(rng, N, nl, real, spin=None if spin == 'no' else spin, density=1.)
    c.update(kind=meth + ('' if spin == 'no' else ' ' + spin), word=w['word'], cls=cls, real=real, end=[w['n'], w['nl'], w['nb']],
             symq=bool(rng.random() < (.7 if meth != 'RTD' else .9)), shift=float(rng.normal()), seed=int(rng.integers(1, 10 ** 9)))
    # units of energy, of any size where no shift is rescaled and the normalisation does not spoil the accuracy
    ops = {x['op']['k'] for x in w['word']}
    c['unit'] = 4. ** int(rng.choice([1, 4, 8, 12, 16, 20] if c['symq'] else [1, 4])) if not {'shift', 'scale'} <= ops else 4.
    h = spin != 'no' and N // 2 or N
    if spin == 'ssq' or spin == 'sz' and rng.random() < .4:
        c['coulomb'] = c17.spread(c17.interaction(rng, h, real, int(rng.integers(0, 4))), h)
    elif spin == 'no' and rng.random() < .4:
        c['coulomb'] = c['coulomb'] + interaction(rng, N, real)
    c['itype'] = int(rng.choice([1, 2, 3]))
    if meth in RATE:
        D = 25 + 20 * rng.random()
        if 'Pauli' in kern or 'Lindblad' in kern:
            c['itype'] = int(rng.integers(0, 4))
            if 'Lindblad' in kern and nl >= N and not nb and spin == 'no' and rng.random() < .3:
                c['hsingle'] = [x for x in c['hsingle'] if x[0] != x[1]][:0]
                c['coulomb'] = []
        elif rng.random() < .1 and N < 3 and nl < 3:
            c['itype'] = 0
        c['dband'] = [[-D, D] if c['itype'] == 1 else [-D * (1 + .2 * rng.random()), D * (1 + .2 * rng.random())] for _ in range(nl)]
        if spin == 'ssq':
            c['dband'] = c['dband'][:nl // 2] * 2
        if nb:
            v, t, b = system.random_baths(rng, N, nb, real, spin=spin if spin != 'no' else None)
            c.update(nbaths=nb, velph=v, tlst_ph=t, dband_ph=[[1e-3, 300.]] * nb, itype_ph=2)
    elif meth == '2vN':
        c['kpnt'] = int(rng.choice([12, 16, 20] if N < 3 else [12]))
        # later iterations of coherent systems are not covariant (known finding of C16)
        c['niter'] = int(rng.integers(1, 4)) if N == 1 else 1
    else:
        c['dband'] = [[-1e5, 1e5]] * nl
        c['off_diag_corrections'] = bool(rng.random() < .7)
    return c


def cases(tier, rng):
    quick = tier == 'quick'
    num, depth = (150, 6) if quick else (1100, 8)
    seed = int(rng.integers(1, 10 ** 6))

    def one(i):
        return tlc.run('CovarianceGen', cfg=GEN % (2 + (depth - 2) * (i % 6) // 5), outputs=['words.ndjson'], timeout=900,
                       args=['-simulate', 'num=%d' % num, '-depth', str(8 * depth), '-seed', str(seed * 10 + i)]).data['words.ndjson']
    def rescaled(w):
        return w['cls']['meth'] == 'RTD' and {'scale'} == {x['op']['k'] for x in w['word']} & {'scale', 'shift'}
    with ThreadPoolExecutor(6) as ex:
        parts = [list(x) for x in ex.map(one, range(12))]
    words = [w for x in parts[:6] for w in x] + [w for x in parts[6:] for w in x if rescaled(w)]
    return [case(rng, w, i) for i, w in enumerate(words) if w['word']]


def prepare(cases, info):
    big = info.get('tier') == 'thorough'
    tlc.run('CovarianceMC', cfg=MC % ((3, 'FALSE') if big else (2, 'FALSE')), workers=8, timeout=2000)
    return dict(tab=fock.tables({n for c in cases for n in range(c['nsingle'], c['end'][0] + 1)}))


# ------------------------------------------------------------------ inputs as arrays
class Inputs(object):
    def __init__(self, c, rng):
        N = self.N = c['nsingle']
        self.c, self.rng = c, rng
        self.A, self.U = np.zeros((N, N), complex), np.zeros((N,) * 4, complex)
        for (i, j), v in system.todict(c['hsingle']).items():
            self.A[j, i] += v
            if i != j:
                self.A[i, j] += np.conj(v)
        for k, v in system.todict(c['coulomb']).items():
            self.U[k] += v
        self.t = np.zeros((c['nleads'], N), complex)
        for k, v in system.todict(c['tleads']).items():
            self.t[k] = v
        self.V = np.zeros((c.get('nbaths', 0), N, N), complex)
        for k, v in system.todict(c.get('velph', [])).items():
            self.V[k] = v
        self.mu, self.T = np.array(c['mulst']), np.array(c['tlst'])
        self.D = np.array(c['dband'], float)
        self.Tp, self.Dp = np.array(c.get('tlst_ph', [])), np.array(c.get('dband_ph', [])).reshape(-1, 2)
        self.spinful = c['indexing'] in ('sz', 'ssq')
        self.extra = []                     # currents of adjoined leads: [particles, energy]

    def case(self):
        c = dict(self.c, nsingle=self.N, nleads=len(self.t), mulst=self.mu.tolist(), tlst=self.T.tolist(), dband=self.D.tolist())

        # what is left of cancelled elements, in the present unit of energy
        unit = abs(self.T).min()
        none, less = 1e-13 * min(unit, 1.), 1e-14 * min(unit, 1.) ** .5

        def num(x):
            return float(x.real) if self.c['real'] and abs(x.imag) < 1e-13 * max(unit, 1.) else [float(x.real), float(x.imag)]
        R = range(self.N)
        c['hsingle'] = [[i, j, num(self.A[j, i]) if i != j else float(self.A[i, i].real)] for i in R for j in R if i <= j and abs(self.A[i, j]) > none]
        c['coulomb'] = [[int(x) for x in k] + [num(self.U[tuple(k)])] for k in np.argwhere(abs(self.U) > none)]
        c['tleads'] = [[int(x) for x in k] + [num(self.t[tuple(k)])] for k in np.argwhere(abs(self.t) > less)]
        if len(self.V):
            c.update(nbaths=len(self.V), velph=[[int(x) for x in k] + [num(self.V[tuple(k)])] for k in np.argwhere(abs(self.V) > less)],
                     tlst_ph=self.Tp.tolist(), dband_ph=self.Dp.tolist())
        return c

    # -------- rewritings; each returns what becomes of the density matrix
    def rotate(self, u, tab):
        """d_i = sum_j u_ij b_j."""
        self.A = u.conj().T @ self.A @ u
        self.U = np.einsum('am,bn,abcd,ck,dl->mnkl', u.conj(), u.conj(), self.U, u, u)
        self.t = self.t @ u.conj()
        self.V = np.array([u.conj().T @ v @ u for v in self.V]).reshape(self.V.shape)
        g = lift(tab[self.N], u)
        return lambda r: g @ r @ g.conj().T

    def whole(self, f):
        """A unitary of all orbitals from one of the orbitals of one spin."""
        if not self.spinful:
            return f(self.N)
        h = self.N // 2
        u = np.zeros((self.N, self.N), complex)
        u[:h, :h] = f(h)
        u[h:, h:] = u[:h, :h] if self.c['indexing'] == 'ssq' else f(h)
        return u

    def apply(self, op, tab):
        k, rng = op['k'], np.random.default_rng(op['seed'])
        same = lambda r: r
        h = len(self.t) // 2 if self.spinful else len(self.t)
        if k == 'leads':
            p = [x - 1 for x in op['p']] + ([h + x - 1 for x in op['q']] if self.spinful else [])
            self.t, self.mu, self.T, self.D = self.t[p], self.mu[p], self.T[p], self.D[p]
            return same
        if k == 'order':
            w = self.N // 2 if self.spinful else self.N
            p = [x - 1 for x in op['p']] + ([w + x - 1 for x in op['q']] if self.spinful else [])
            u = np.zeros((self.N, self.N))
            u[p, range(self.N)] = 1
            return self.rotate(u, tab)
        if k == 'phase':
            turn = (lambda n: np.where(rng.random(n) < .5, -1., 1.)) if self.c['real'] else (lambda n: np.exp(2j * np.pi * rng.random(n)))
            x = turn(h)
            self.t = self.t * np.concatenate([x, x if self.c['indexing'] == 'ssq' else turn(h)] if self.spinful else [x])[:, None]
            return self.rotate(self.whole(lambda n: np.diag(turn(n))), tab)
        if k == 'mix':
            def q(n):
                z = rng.normal(size=(n, n)) + (0 if self.c['real'] else 1j * rng.normal(size=(n, n)))
                return np.linalg.qr(z)[0]
            return self.rotate(self.whole(q), tab)
        if k == 'flip':
            w = self.N // 2
            p = list(range(h, 2 * h)) + list(range(h))
            self.t, self.mu, self.T, self.D = self.t[p], self.mu[p], self.T[p], self.D[p]
            u = np.zeros((self.N, self.N))
            u[list(range(w, 2 * w)) + list(range(w)), range(self.N)] = 1
            return self.rotate(u, tab)
        if k == 'conj':
            self.A, self.U, self.t, self.V = self.A.conj(), self.U.conj(), self.t.conj(), self.V.conj()
            return np.conj
        if k == 'holes':
            self.A = -self.A.T
            U, n = self.U, np.eye(self.N)
            # d+_m d+_n d_k d_l with d = b+ brought to normal order
            one = (-np.einsum('mnkl,nk->lm', U, n) + np.einsum('mnkl,mk->ln', U, n)
                   + np.einsum('mnkl,nl->km', U, n) - np.einsum('mnkl,ml->kn', U, n))
            self.A, self.U = self.A + one, U.transpose(2, 3, 0, 1)
            self.t, self.mu, self.D = -self.t.conj(), -self.mu, -self.D[:, ::-1]
            g = holes(tab[self.N])
            return lambda r: g @ r @ g.conj().T
        if k == 'shift':
            d = self.c['shift'] * op['x']
            self.A, self.mu = self.A + d * np.eye(self.N), self.mu + d
            if self.c['itype'] in (0, 2) or self.c['cls']['meth'] == '2vN':
                self.D = self.D + d
            return same
        if k == 'scale':
            f = self.c['unit'] ** op['x']
            self.A, self.U, self.mu, self.T, self.D, self.Tp, self.Dp = (f * x for x in (self.A, self.U, self.mu, self.T, self.D, self.Tp, self.Dp))
            self.t, self.V = self.t * f ** .5, self.V * f ** .5
            return same
        if k == 'cut':
            ls = [op['l'] - 1] + ([op['l'] - 1 + h] if self.spinful else [])
            self.t[ls] /= 2 ** .5
            self.insert(h, [[x[l] for l in ls] for x in (self.t, self.mu, self.T, self.D)])
            return same
        if k == 'idle':
            m = 2 if self.spinful else 1
            mu, T = (abs(self.T).min() * x for x in (rng.normal(), .4 + rng.random()))
            self.insert(h, [np.zeros((m, self.N)), [mu] * m, [T] * m, [self.D[0]] * m])
            return same
        if k == 'adjoin':
            return self.adjoin(rng)
        if k in ('baths', 'cutbath'):
            p = [x - 1 for x in op['p']]
            if k == 'cutbath':
                self.V[op['l'] - 1] /= 2 ** .5
                p = list(range(len(self.V))) + [op['l'] - 1]
            self.V, self.Tp, self.Dp = self.V[p], self.Tp[p], self.Dp[p]
            return same
        raise AssertionError(k)

    def insert(self, h, new):
        """New leads at the end of each half."""
        out = []
        for x, y in zip((self.t, self.mu, self.T, self.D), new):
            y = np.asarray(y)
            out.append(np.concatenate([x[:h], y[:1], x[h:], y[1:]]))
        self.t, self.mu, self.T, self.D = out

    def adjoin(self, rng):
        N = self.N
        unit = abs(self.T).min()
        e, mu, T = unit * rng.normal(), unit * rng.normal(size=2), unit * (.5 + rng.random(2))
        x = .2 * (1 + rng.random(2)) * unit ** .5 * (1 if self.c['real'] else np.exp(2j * np.pi * rng.random(2)))

        def grow(a, axes):
            return np.pad(a, [(0, 1) if k in axes else (0, 0) for k in range(a.ndim)])
        self.A, self.U, self.t, self.V = grow(self.A, (0, 1)), grow(self.U, (0, 1, 2, 3)), grow(self.t, (1,)), grow(self.V, (1, 2))
        self.A[N, N] = e
        row = np.zeros((2, N + 1), complex)
        row[:, N] = x
        self.insert(len(self.t), [row[:1], mu[:1], T[:1], self.D[:1]])
        self.insert(len(self.t), [row[1:], mu[1:], T[1:], self.D[:1]])
        self.N += 1
        g, f = 2 * np.pi * abs(x) ** 2, 1 / (1 + np.exp((e - mu) / T))
        occ = (g @ f) / g.sum()
        I = g * (f - occ)
        self.extra += [[v, e * v] for v in I]
        return lambda r: np.kron(r, np.diag([1 - occ, occ]))


def creators(tab):
    return [np.where(tab.charge[:, None] == tab.charge[None, :] + 1, tab.tunneling(1, {(0, i): 1.})[0], 0) for i in range(tab.n)]


def filled(tab, ops, vacuum):
    """Columns: the states that the operators ops create from vacuum, by Lin code."""
    g = np.zeros((tab.dim, tab.dim), complex)
    for lin in range(tab.dim):
        v = vacuum
        for i in reversed(range(tab.n)):
            if lin >> (tab.n - 1 - i) & 1:
                v = ops[i] @ v
        g[:, lin] = v
    return g


def basis(tab, lin):
    v = np.zeros(tab.dim, complex)
    v[lin] = 1
    return v


def lift(tab, u):
    """The unitary in Fock space that belongs to d_i = sum_j u_ij b_j."""
    b = creators(tab)
    one = filled(tab, b, basis(tab, 0))                 # signs of the Fock states
    return filled(tab, [sum(u[i, j].conjugate() * b[j] for j in range(tab.n)) for i in range(tab.n)], basis(tab, 0)) @ one.conj().T


def holes(tab):
    b = creators(tab)
    one = filled(tab, b, basis(tab, 0))
    return filled(tab, [x.conj().T for x in b], basis(tab, tab.dim - 1)) @ one.conj().T


# ------------------------------------------------------------------ solutions
def solved(c):
    s = system.build(c)
    if c['cls']['meth'] == '2vN':
        s.solve(niter=c['niter'])
    else:
        s.solve()
    if c['cls']['meth'] != '2vN' and not s.success:
        return None
    out = [np.array(x) for x in (s.current, s.energy_current, s.heat_current)]
    rho = system.density_matrix(s)
    if c['cls']['meth'] not in RATE:
        rho = np.where(np.isfinite(rho), rho, 0)
    W = fock.eigenvectors(s)
    L = fock.lin(s)
    return out, W @ rho @ W.conj().T, s


def unique(c, s, first):
    """Whether another normalisation row gives the same solution."""
    if c['cls']['meth'] == '2vN':
        return c16.gap(s, np.array(s.appr.phi1k), c) > 1e-4
    r = solved(dict(c, norm_row=int(s.si.npauli) - 1))
    return r is not None and all(abs(a - b).max() < 1e-10 * (1 + abs(a).max()) for a, b in zip(r[0], first[0])) and \
        abs(r[1] - first[1]).max() < 1e-8


def told(x, I, J, c):
    """Currents of a lead after a word."""
    o = x['o']
    if o == 0:
        return 0., 0.
    w = 2. ** -x['w']
    return x['sg'] * c['unit'] ** x['sc'] * w * I[o - 1], w * (c['unit'] ** (2. * x['sc']) * J[o - 1] + x['b'] / 4096. * c['shift'] * I[o - 1])


def run(c, ctx):
    rng = np.random.default_rng(c['seed'])
    with contextlib.redirect_stdout(io.StringIO()):
        base = solved(c)
        if base is None or not unique(c, base[2], base):
            raise Skip('no unique stationary state')
        x = Inputs(c, rng)
        again = np.array(base[2].leads.Tba)
        E0 = base[2].Ea
        rho = base[1]
        for step in c['word']:
            rho = x.apply(step['op'], ctx['tab'])(rho)
        got = solved(x.case())
    meth = c['cls']['meth']
    names = [s['op']['k'] for s in c['word']]
    if got is None:
        return {'fail': ['%s: no solution' % names], 'n': 1}
    leads = c['word'][-1]['leads']
    I0, J0 = ([*base[0][k], *[y[k] for y in x.extra]] for k in (0, 1))
    want = np.array([told(y, I0, J0, c) for y in leads])
    I, J, H = got[0]
    quad = meth in RATE and fo.uses_quad(c['kerntype'], c['itype'], False, 2)
    tol = 2e-4 if quad else 1e-8 if meth in RATE else 1e-7 if meth == '2vN' else 1e-5
    top = abs(x.t).max() ** 2
    energy = abs(got[2].Ea).max() + abs(x.mu).max() + abs(x.T).max()
    fail = []
    for name, a, b, size in (('current', I, want[:, 0], top), ('energy_current', J, want[:, 1], top * energy),
                             ('heat_current', H, want[:, 1] - x.mu * want[:, 0], top * energy)):
        if not abs(a - b).max() <= tol * size:
            fail.append('%s: %s is %s, expected %s' % (names, name, list(a), list(b)))
    # amplitudes of 1vN know the energies of the other subsystem as well, which does not change the currents
    apart = '1vN' in c['kerntype'] and 'adjoin' in names
    if not apart and not abs(got[1] - rho).max() <= 10 * tol:
        fail.append('%s: density matrix differs by %g' % (names, abs(got[1] - rho).max()))
    return {'fail': fail, 'n': 3 * len(leads) + len(rho) ** 2}
