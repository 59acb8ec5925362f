"""Evaluates the diagrams that TLC enumerates from Diagrams.tla for given numbers: leads of very large bandwidth whose
correlation functions are sums of exponentials (poles of the Fermi function), so that every diagram is a sum of
rational terms."""
import json
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from . import tlc

POLES = 24
CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
_cache = {}


def tables(charges, jobs=4):
    """{charges: {order: rows}} for every tuple of charges, generated by TLC where not yet known."""
    todo = sorted({tuple(q) for q in charges} - set(_cache), key=lambda q: -len(q))
    parts = [todo[i::jobs] for i in range(jobs) if todo[i::jobs]]

    def one(part):
        r = tlc.run('DiagramsGen', cfg=CFG, inputs={'configs.json': [dict(id=i, q=list(q)) for i, q in enumerate(part)]},
                    outputs=['diagrams.ndjson'], timeout=800)
        for q in part:
            _cache[q] = {1: [], 2: []}
        for d in r.data['diagrams.ndjson']:
            _cache[part[d['id']]][d['order']] += d['rows']
        for q in part:
            _cache[q] = {o: np.array(x, dtype=int).reshape(-1, 5 + 10 * o) for o, x in _cache[q].items()}
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, parts))
    return {tuple(q): _cache[tuple(q)] for q in charges}


def pade(n):
    """Poles i xi and residues of the Fermi function f(x) = 1/2 - sum 2 k x / (x^2 + xi^2)."""
    def spectrum(m, shift):
        k = np.arange(1, m)
        off = 1. / np.sqrt((2 * k - 1 + shift) * (2 * k + 1 + shift))
        e = np.linalg.eigvalsh(np.diag(off, 1) + np.diag(off, -1))
        return np.sort(2. / e[e > 1e-12])
    xi, zeta = spectrum(2 * n, 0), spectrum(2 * n - 1, 2)
    kappa = np.zeros(n)
    for j in range(n):
        r = 0.5 * n * (2 * n + 1)
        num = [(z ** 2 - xi[j] ** 2) for z in zeta]
        den = [(x ** 2 - xi[j] ** 2) for i, x in enumerate(xi) if i != j]
        for a, b in zip(num, den):
            r *= a / b
        kappa[j] = r
    return xi, kappa


PADE = {}


def poles(n):
    if n not in PADE:
        PADE[n] = pade(n)
    return PADE[n]


def correlation(mu, T, W, filled, sign, n=POLES):
    """(amplitudes, rates, energies) of the integral of f or 1 - f times exp(i sign w t) over a Lorentzian band around mu."""
    xi, kappa = poles(n)
    x = 1j * W / T
    f = 0.5 - np.sum(2 * kappa * x / (x ** 2 + xi ** 2))
    g = np.concatenate([[np.pi * W * (f if filled else 1 - f)],
                        2j * np.pi * (-1 if filled else 1) * kappa * T * W ** 2 / (W ** 2 - (xi * T) ** 2)])
    y = np.concatenate([[W], xi * T])
    w = mu + 1j * y
    return (g, y - 1j * mu, w) if sign > 0 else (g.conj(), y + 1j * mu, w.conj())


class Leads(object):
    def __init__(self, mu, T, W, poles=POLES):
        self.n = len(mu)
        self.c = {(f, s): [correlation(mu[l], T[l], W, f, s, poles) for l in range(self.n)] for f in (0, 1) for s in (-1, 1)}

    def __call__(self, l, filled, sign):
        return self.c[filled, sign][l]


def element(T, l, R, i):
    """Matrix elements of vertex i of the rows."""
    before = R[:, 0:2] if i == 0 else R[:, 5 * i + 3:5 * i + 5]
    p, z = R[:, 5 + 5 * i], R[:, 8 + 5 * i:10 + 5 * i]
    return np.where(p == 1, T[l][z[:, 0], before[:, 0]], T[l][before[:, 1], z[:, 1]])


def energies(E, R, i):
    """i (E_ket - E_bra) after vertex i."""
    return 1j * (E[R[:, 8 + 5 * i]] - E[R[:, 9 + 5 * i]])


def first(E, T, leads, R, energy=False):
    """Values of the diagrams with one line, by lead (energy: weighted with the energy of the line)."""
    out = np.zeros((leads.n, len(R)), complex)
    pre = R[:, 2] * (-1j * R[:, 5]) * (-1j * R[:, 10])
    for l in range(leads.n):
        A = pre * element(T, l, R, 0) * element(T, l, R, 1)
        for filled in (0, 1):
            for late in (-1, 1):
                m = (R[:, 3] == filled) & (R[:, 11] == late)
                g, y, w = leads(l, filled, -late)
                out[l, m] = A[m] * ((g * w if energy else g) / (energies(E, R[m], 0)[:, None] + y)).sum(1)
    return out


def second(E, T, leads, R, energy=False):
    """Values of the diagrams with two lines, by the lead of the last vertex (energy: weighted with
    the energy of its line)."""
    out = np.zeros((leads.n, len(R)), complex)
    pre = R[:, 2] * np.prod([-1j * R[:, 5 + 5 * i] for i in range(4)], axis=0)
    line = np.stack([R[:, 7 + 5 * i] for i in range(4)], 1)
    eta = np.stack([R[:, 6 + 5 * i] for i in range(4)], 1)
    last = line[:, 3]
    third = line[:, 2]
    rows = np.arange(len(R))
    s1 = eta[rows, np.where(third == 1, 2, 3)]      # eta of the closing vertex of line 1
    s2 = eta[rows, np.where(third == 2, 2, 3)]
    kinds = np.stack([R[:, 3], R[:, 4], s1, s2, last], 1)
    for kind in {tuple(k) for k in kinds.tolist()}:
        m = np.where((kinds == kind).all(1))[0]
        f1, f2, c1, c2, la = kind
        e = [energies(E, R[m], i) for i in range(3)]
        key, inv = np.unique(np.round(np.stack([x.imag for x in e], 1), 12), axis=0, return_inverse=True)
        inv = inv.ravel()
        for l1 in range(leads.n):
            g1, y1, w1 = leads(l1, f1, -c1)
            for l2 in range(leads.n):
                g2, y2, w2 = leads(l2, f2, -c2)
                a1, a2 = (g1 * w1, g2) if energy and la == 1 else (g1, g2 * w2) if energy else (g1, g2)
                amp = pre[m].copy()
                for i in range(4):
                    li = line[m, i]
                    amp = amp * np.where(li == 1, element(T, l1, R[m], i), element(T, l2, R[m], i))
                I = np.zeros(len(key), complex)
                for k, (x, y, z) in enumerate(1j * key):
                    A = 1. / (x + y1)                      # only line 1 is open
                    B = 1. / (y + y1[:, None] + y2[None, :])
                    if la == 1:
                        I[k] = (a1 * A / (z + y1)) @ B @ a2
                    else:
                        I[k] = (a1 * A) @ B @ (a2 / (z + y2))
                out[l1 if la == 1 else l2, m] += amp * I[inv]
    return out


class Kernel(object):
    """Lead-resolved kernels of the diagonal elements and their stationary state."""
    def __init__(self, E, T, q, mu, temp, corrections=True, W=1e5):
        self.E, self.T, self.q = np.asarray(E, float), np.asarray(T), np.array(q)
        self.mu, self.temp, self.corrections = mu, temp, corrections
        n, nl = len(self.E), len(self.T)
        low = min(q)
        key = tuple(int(x) - int(low) for x in q)
        t = tables([key])[key]
        self.R1, self.R2 = t[1], t[2]
        leads = Leads(mu, temp, W * max(temp))
        self.pairs = np.array([(a, b) for a in range(n) for b in range(n) if a != b and q[a] == q[b]], int).reshape(-1, 2).T
        self.W1 = self.ends(first(self.E, self.T, leads, self.R1))
        d = np.arange(n)
        self.first = self.W1[:, d, d][:, :, d, d].real
        self.second = np.zeros((nl, n, n))
        for l, v in enumerate(second(self.E, self.T, leads, self.R2)):
            np.add.at(self.second[l], (self.R2[:, 23], self.R2[:, 0]), v.real)
        self.off = self.correction(self.W1).real
        self.W = self.first + self.second + self.off
        M = self.W.sum(0)
        A = np.vstack([M / abs(M).max(), np.ones(n)])
        self.p = np.linalg.lstsq(A, np.append(np.zeros(n), 1.), rcond=None)[0]
        s = np.linalg.svd(M, compute_uv=False)
        self.gap = s[-2] / s[0] if n > 1 else 1.
        self.current = np.array([np.dot(q, self.W[l] @ self.p) for l in range(nl)])

    def ends(self, v):
        n, R = len(self.E), self.R1
        out = np.zeros((len(self.T), n, n, n, n), complex)
        for l in range(len(self.T)):
            np.add.at(out[l], (R[:, 13], R[:, 14], R[:, 0], R[:, 1]), v[l])
        return out

    def correction(self, left):
        """Two first-order kernels with a coherence in between."""
        n, d, (a, b) = len(self.E), np.arange(len(self.E)), self.pairs
        if not len(a) or not self.corrections:
            return np.zeros((len(self.T), n, n))
        G = 1. / (1j * (self.E[a] - self.E[b]))
        return left[:, d, d][:, :, a, b] @ (G[:, None] * self.W1.sum(0)[a, b][:, d, d])

    def flow(self, W, poles):
        """Energy currents for one bandwidth: the energy of the line that ends in the last vertex enters or leaves."""
        leads = Leads(self.mu, self.temp, W * max(self.temp), poles)
        s1, s2 = self.R1[:, 10] * self.R1[:, 11] / 2., self.R2[:, 20] * self.R2[:, 21] / 2.
        W1 = self.ends(s1 * first(self.E, self.T, leads, self.R1, True))
        d = np.arange(len(self.E))
        M = W1[:, d, d][:, :, d, d] + self.correction(W1)
        v = s2 * second(self.E, self.T, leads, self.R2, True)
        return np.array([(M[l].sum(0) @ self.p + (v[l] * self.p[self.R2[:, 0]]).sum()).real for l in range(len(self.T))])

    def energy_current(self, W=500., poles=72):
        """Limit of infinite bandwidth, from three bandwidths; and how well it is determined."""
        a, b, c = (self.flow(W / k, poles) for k in (1, 2, 4))
        x, y = 2 * a - b, 2 * b - c
        return (4 * x - y) / 3, abs(x - y).max()
