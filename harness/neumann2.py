"""Evaluates the equation that TLC enumerates from Neumann2.tla on an energy grid: amplitudes Phi1(k) as linear functions
of Phi0 after every iteration, the integrated ones, the density matrix and the currents."""
import numpy as np

from . import tlc

CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
_cache = {}


def tables(charges):
    """{charges: tables} for every tuple of charges, generated by TLC where not yet known."""
    todo = sorted({tuple(int(x) for x in q) for q in charges} - set(_cache))
    if todo:
        r = tlc.run('Neumann2Gen', cfg=CFG, inputs={'configs.json': [dict(id=i, q=list(q)) for i, q in enumerate(todo)]},
                    outputs=['terms.ndjson'], timeout=800)
        for d in r.data['terms.ndjson']:
            _cache[todo[d['id']]] = dict(terms=np.array(d['terms'], int).reshape(-1, 14), sources=np.array(d['sources'], int).reshape(-1, 7),
                                         sinks=np.array(d['sinks'], int).reshape(-1, 7))
    return {tuple(q): _cache[tuple(q)] for q in charges}


def hilbert(n):
    """Matrix of the principal value of (1/pi) int f(y)/(x-y) dy for piecewise linear f, at its n nodes."""
    d = np.arange(-n, n + 1).astype(float)
    x = np.zeros_like(d)
    m = d != 0
    x[m] = d[m] * np.log(abs(d[m]))
    ker = np.zeros(2 * n - 1)
    ker[:] = (x[2:] - 2 * x[1:-1] + x[:-2])
    ker[n - 1] = 0.
    i = np.arange(n)
    return ker[i[:, None] - i[None, :] + n - 1] / np.pi


class Equation(object):
    """States with energies E, charges q (ascending) and tunneling T[l, x, y]; leads with one band."""
    def __init__(self, table, E, q, T, mu, temp, band, kpnt):
        self.t, self.E, self.q, self.T = table, np.asarray(E, float), np.asarray(q), np.asarray(T)
        n, self.nl = len(self.E), len(self.T)
        self.n = n
        self.grid = np.linspace(band[0], band[1], kpnt)
        self.step = self.grid[1] - self.grid[0]
        # arguments lie at most this far outside of the band
        reach = (self.E.max() - self.E.min()) + abs(band[0]) + abs(band[1])
        self.out = int(reach / self.step) + 3
        self.ext = len(self.grid) + 2 * self.out
        self.H = hilbert(self.ext)[:, self.out:self.out + kpnt]
        self.f = np.array([1. / (np.exp((self.grid - mu[l]) / temp[l]) + 1) for l in range(self.nl)])
        self.up = np.argwhere(np.equal.outer(self.q, self.q + 1))          # amplitudes (c, b)
        self.at = -np.ones((n, n), int)
        self.at[self.up[:, 0], self.up[:, 1]] = np.arange(len(self.up))
        self.even = np.argwhere(np.equal.outer(self.q, self.q))
        self.e_at = -np.ones((n, n), int)
        self.e_at[self.even[:, 0], self.even[:, 1]] = np.arange(len(self.even))
        self.swap = self.e_at[self.even[:, 1], self.even[:, 0]]
        self.known = False

    def embed(self, f):
        """Values on the grid -> [values, principal values] on the long grid (grid is the first axis)."""
        z = np.zeros((self.ext,) + f.shape[1:], complex)
        z[self.out:self.out + len(self.grid)] = f
        return z, np.tensordot(self.H, f, 1)

    def interpolate(self, a, x):
        u = (x - self.grid[0]) / self.step + self.out
        i = np.clip(np.floor(u).astype(int), 0, self.ext - 2)
        w = (u - i).reshape((-1,) + (1,) * (a.ndim - 1))
        return a[i] * (1 - w) + a[i + 1] * w

    def integral(self, a, h, eta, Y):
        """int F(E) / (Y - eta E - i0) dE at the energies Y, F given on the long grid."""
        if eta == 1:
            return np.pi * (self.interpolate(h, Y) + 1j * self.interpolate(a, Y))
        return -np.pi * (self.interpolate(h, -Y) - 1j * self.interpolate(a, -Y))

    def vertex(self, l, before, p, after):
        """Matrix element of a vertex."""
        return self.T[l][after[0], before[0]] if p == 1 else self.T[l][before[1], after[1]]

    def local(self):
        """Inverse of what acts on Phi1(k), and the sources."""
        K, N1, N0 = len(self.grid), len(self.up), len(self.even)
        L = np.zeros((K, N1, N1), complex)
        for i, (c, b) in enumerate(self.up):
            L[:, i, i] = self.grid - self.E[c] + self.E[b]
        fermi = {1: [self.embed(self.f[l]) for l in range(self.nl)], 0: [self.embed(1 - self.f[l]) for l in range(self.nl)]}
        seen = {}
        for r in self.t['terms']:
            if not r[0]:
                continue
            x0, y0, sign, filled, p1, e1, x1, y1, p2, e2, x2, y2 = (int(z) for z in r[2:])
            for l in range(self.nl):
                w = -p1 * p2 * sign * self.vertex(l, (x0, y0), p1, (x1, y1)) * self.vertex(l, (x1, y1), p2, (x2, y2))
                if w:
                    k = (x1, y1, e1, filled, l)
                    if k not in seen:
                        seen[k] = self.integral(*fermi[filled][l], e1, self.E[x1] - self.E[y1] - self.grid)
                    L[:, self.at[x2, y2], self.at[x0, y0]] -= w * seen[k]
        self.inv = np.linalg.inv(L)
        S = np.zeros((self.nl, K, N1, N0), complex)
        for x0, y0, filled, p, e, x, y in self.t['sources']:
            for l in range(self.nl):
                S[l, :, self.at[x, y], self.e_at[x0, y0]] += p * self.vertex(l, (x0, y0), p, (x, y)) * (self.f[l] if filled else 1 - self.f[l])
        return np.einsum('kab,lkbc->klac', self.inv, S)

    def exchange(self, d, swapped):
        """What a correction d (k, lead, amplitude, Phi0) makes of Phi1."""
        K, N1, N0 = len(self.grid), len(self.up), len(self.even)
        out = np.zeros((self.nl, K, N1, N0), complex)
        sets = {1: self.embed(d)}
        c = d.conj()
        sets[-1] = self.embed(c[..., self.swap] if swapped else c)
        seen = {}
        for r in self.t['terms']:
            if r[0]:
                continue
            e0, x0, y0, sign, filled, p1, e1, x1, y1, p2, e2, x2, y2 = (int(z) for z in r[1:])
            i0 = self.at[x0, y0] if e0 == 1 else self.at[y0, x0]
            key = (x1, y1, e0, i0)
            if key not in seen:
                a, h = sets[e0]
                seen[key] = self.integral(a[:, :, i0], h[:, :, i0], e0, self.E[x1] - self.E[y1] - self.grid)   # k, l1, Phi0
            # line 1 ends in the second vertex, line 2 begins in the first one
            v2 = np.array([self.vertex(l, (x1, y1), p2, (x2, y2)) for l in range(self.nl)])
            z = -p1 * p2 * sign * np.einsum('l,klc->kc', v2, seen[key])
            for l in range(self.nl):
                w = self.vertex(l, (x0, y0), p1, (x1, y1))
                if w:
                    out[l][:, self.at[x2, y2]] += w * (self.f[l] if filled else 1 - self.f[l])[:, None] * z
        return np.einsum('kab,lkbc->klac', self.inv, out)

    def iterations(self, count, swapped=True):
        """Phi1(k) (k, lead, amplitude, Phi0) after every iteration."""
        d = self.local()
        out = [d]
        for _ in range(count - 1):
            d = self.exchange(d, swapped)
            out.append(out[-1] + d)
        return out

    def stationary(self, phi1k):
        """(density matrix, amplitudes by lead, currents, energy currents, gap)"""
        w = np.full(len(self.grid), self.step)
        w[[0, -1]] /= 2
        A, B = np.tensordot(w, phi1k, 1), np.tensordot(w * self.grid, phi1k, 1)
        N0 = len(self.even)
        M = np.zeros((N0, N0), complex)
        M[range(N0), range(N0)] = -1j * (self.E[self.even[:, 0]] - self.E[self.even[:, 1]])
        for e, x0, y0, p, eta, x, y in self.t['sinks']:
            for l in range(self.nl):
                row = A[l, self.at[x0, y0]] if e == 1 else A[l, self.at[y0, x0]].conj()[self.swap]
                M[self.e_at[x, y]] += -1j * p * self.vertex(l, (x0, y0), p, (x, y)) * row
        tr = (self.even[:, 0] == self.even[:, 1]).astype(float)
        s = np.linalg.svd(M, compute_uv=False)
        top = s[0] or 1.
        phi0 = np.linalg.lstsq(np.vstack([M / top, tr]), np.append(np.zeros(N0), 1.), rcond=None)[0]
        a, b = A @ phi0, B @ phi0
        I, W = np.zeros(self.nl), np.zeros(self.nl)
        for i, (c, d) in enumerate(self.up):
            I += -2 * (a[:, i] * self.T[:, d, c]).imag
            W += -2 * (b[:, i] * self.T[:, d, c]).imag
        return phi0, a, I, W, (s[-2] / top if N0 > 1 else 1.)
