"""Evaluates the term tables of the specification (MasterEqGen) for given numbers."""
import numpy as np

from . import leaf

COL = dict(t1=0, t2=1, s1=2, s2=3, c=4, a1r=5, a1c=6, a2r=7, a2c=8, f=9, cc=10, er=11, ec=12, gr=13, gc=14)


class Terms(object):
    """Term tables of one configuration as integer arrays."""
    def __init__(self, d):
        def arr(x):
            rows = [r for part in x for r in part]
            return np.array(rows, dtype=int).reshape(-1, 15)
        self.lead, self.current, self.ph = arr(d['lead']), arr(d['current']), arr(d['ph'])


class Params(object):
    """E[label], T[lead, label, label], V[bath, label, label] and lead and bath parameters."""
    def __init__(self, E, T, mu, temp, band, itype, V=None, temp_ph=None, band_ph=None, itype_ph=2,
                 dos=None, eps=1e-6):
        self.E, self.T, self.itype = np.asarray(E, float), np.asarray(T), itype
        nl = len(self.T)
        self.mu, self.temp, self.band = mu, temp, band
        self.V = np.zeros((0,) + self.T.shape[1:]) if V is None else np.asarray(V)
        self.temp_ph, self.band_ph, self.itype_ph = temp_ph, band_ph, itype_ph
        self.dos = dos or [(lambda x: 1.)] * len(self.V)
        self.eps = eps
        self.nl, self.nb = nl, len(self.V)

    def lead_factor(self, l, kind, u, d):
        e = self.E[u] - self.E[d]
        args = (float(e), float(self.mu[l]), float(self.temp[l]), float(self.band[l][0]), float(self.band[l][1]),
                self.itype)
        return leaf.pauli(*args) if kind == 'rate' else leaf.first_order(*args)

    def ph_factor(self, l, kind, u, d):
        e = self.E[u] - self.E[d]
        a = (float(e), float(self.temp_ph[l]), float(self.band_ph[l][0]), float(self.band_ph[l][1]))
        if kind == 'rate':
            return (leaf.phonon_rate(*a, self.dos[l], self.eps),)
        w = leaf.phonon_first_order(*a, self.itype_ph, self.dos[l], self.eps)
        # a process that changes no energy counts with half its dissipative part
        return tuple(x - 0.5j * np.imag(x) for x in w) if u == d else w


def _table(rows, cols, fun, width, n, dtype):
    F = np.zeros((width, n, n), dtype=dtype)
    for u, d in {tuple(x) for x in rows[:, cols].tolist()}:
        F[:, u, d] = fun(u, d)
    return F


class Equation(object):
    """d rho/dt = L rho on the ordered pairs, lead currents I = C rho, and their energy weighted forms."""
    def __init__(self, apr, terms, p, pairs):
        self.pairs = [tuple(x) for x in pairs]
        self.index = {x: i for i, x in enumerate(self.pairs)}
        n, P = len(p.E), len(self.pairs)
        self.n, self.apr = n, apr
        idx = -np.ones((n, n), dtype=int)
        for i, (a, b) in enumerate(self.pairs):
            idx[a, b] = i
        self.idx = idx
        L = np.zeros((P, P), dtype=complex)
        self.absL = np.zeros((P, P))
        neum = apr in ('1vN', 'Redfield')
        pre = -1j if neum else 1.
        if apr != 'Pauli':
            for i, (a, b) in enumerate(self.pairs):
                L[i, i] += -1j * (p.E[a] - p.E[b])
        for l in range(p.nl):
            w, _ = self._lead(terms.lead, p, l, neum)
            self._add(L, terms.lead, pre * w)
        for l in range(p.nb):
            self._add(L, terms.ph, pre * self._phonon(terms.ph, p, l, apr))
        self.L = L
        self.C, self.CE = np.zeros((p.nl, P), dtype=complex), np.zeros((p.nl, P), dtype=complex)
        self.Cterm = np.zeros((p.nl, P))
        for l in range(p.nl):
            w, we = self._lead(terms.current, p, l, neum, current=True)
            cp = 1j if neum else 1.
            s = idx[terms.current[:, 2], terms.current[:, 3]]
            np.add.at(self.C[l], s, cp * w)
            np.add.at(self.CE[l], s, cp * we)
            np.add.at(self.Cterm[l], s, abs(w) + abs(we))

    def _add(self, L, R, w):
        i, j = self.idx[R[:, 0], R[:, 1]], self.idx[R[:, 2], R[:, 3]]
        assert len(R) == 0 or (min(i.min(), j.min()) >= 0)
        np.add.at(L, (i, j), w)
        np.add.at(self.absL, (i, j), abs(w))

    def _lead(self, R, p, l, neum, current=False):
        """Weight and energy-weighted weight of every row."""
        if len(R) == 0:
            return np.zeros(0), np.zeros(0)
        T = p.T[l]
        amp = 0.5 * R[:, 4] * T[R[:, 5], R[:, 6]] * T[R[:, 7], R[:, 8]]
        if neum:
            F = _table(R, [11, 12], lambda u, d: p.lead_factor(l, 'amp', u, d), 4, self.n, complex)
            f = F[R[:, 9], R[:, 11], R[:, 12]]
            g = F[2 + R[:, 9], R[:, 11], R[:, 12]]
            f = np.where(R[:, 10] == 1, f.conj(), f)
            g = np.where(R[:, 10] == 1, g.conj(), g)
            return amp * f, amp * g
        F = _table(np.concatenate([R[:, [11, 12]], R[:, [13, 14]]]), [0, 1],
                   lambda u, d: p.lead_factor(l, 'rate', u, d), 2, self.n, float)
        w = amp * np.sqrt(F[R[:, 9], R[:, 11], R[:, 12]] * F[R[:, 9], R[:, 13], R[:, 14]])
        if not current:
            return w, None
        # mean energy of the two transitions
        e = 0.5 * (p.E[R[:, 11]] - p.E[R[:, 12]] + p.E[R[:, 13]] - p.E[R[:, 14]])
        return w, w * e

    def _phonon(self, R, p, l, apr):
        if len(R) == 0:
            return np.zeros(0)
        V = p.V[l]
        amp = R[:, 4] * V[R[:, 5], R[:, 6]] * V[R[:, 7], R[:, 8]].conj()
        if apr in ('1vN', 'Redfield'):
            F = _table(R, [11, 12], lambda u, d: p.ph_factor(l, 'amp', u, d), 2, self.n, complex)
            f = F[R[:, 9], R[:, 11], R[:, 12]]
            return 0.5 * amp * np.where(R[:, 10] == 1, f.conj(), f)
        F = _table(np.concatenate([R[:, [11, 12]], R[:, [13, 14]]]), [0, 1],
                   lambda u, d: p.ph_factor(l, 'rate', u, d), 1, self.n, float)[0]
        return (0.25 if apr == 'Lindblad' else 0.5) * amp * np.sqrt(F[R[:, 11], R[:, 12]] * F[R[:, 13], R[:, 14]])

    def vector(self, rho):
        return np.array([rho[a, b] for a, b in self.pairs])

    def residual(self, rho):
        """Largest violation of d rho/dt = 0 relative to the size of the terms."""
        v = self.vector(rho)
        r = abs(self.L @ v)
        scale = np.maximum(abs(self.L).max() * abs(v).max() * 1e-3, self.absL @ abs(v))
        return float((r / (scale + 1e-300)).max()), float(r.max() / (abs(self.L).max() + 1e-300))

    def solve(self):
        """Stationary state and the gap of the null space (second smallest over largest singular value)."""
        u, s, vh = np.linalg.svd(self.L)
        v = vh[-1].conj()
        tr = sum(v[self.index[(b, b)]] for b in range(self.n) if (b, b) in self.index)
        gap = s[-2] / s[0] if len(s) > 1 else 1.
        return (v / tr if abs(tr) > 1e-12 else None), float(gap)

    def currents(self, rho):
        v = self.vector(rho)
        return (self.C @ v), (self.CE @ v), (self.Cterm @ abs(v))


def amplitudes(terms, p, l, rho):
    """First-order amplitudes phi1[c, b] of lead l, from the unconjugated rows of the current terms."""
    R = terms.current[terms.current[:, 10] == 0]
    n = len(p.E)
    F = _table(R, [11, 12], lambda u, d: p.lead_factor(l, 'amp', u, d), 4, n, complex)
    T = p.T[l]
    w = T[R[:, 7], R[:, 8]] * F[R[:, 9], R[:, 11], R[:, 12]] * rho[R[:, 2], R[:, 3]]
    out = np.zeros((n, n), dtype=complex)
    np.add.at(out, (R[:, 0], R[:, 1]), w)
    size = np.zeros((n, n))
    np.add.at(size, (R[:, 0], R[:, 1]), abs(w))
    return out, size
