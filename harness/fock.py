"""Many-body operators from the element tables that TLC generates from Fock.tla."""
import numpy as np

from . import tlc

CFG = 'SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'


class Fock(object):
    def __init__(self, d):
        self.n = d['n']
        self.dim = 2 ** self.n
        self.charge = np.zeros(self.dim, int)
        self.sz = np.zeros(self.dim, int)
        for lin, q, sz in d['charge']:
            self.charge[lin], self.sz[lin] = q, sz
        self._hop = {(tuple(x['key']), x['herm']): self._terms(x['terms']) for x in d['hop']}
        self._coulomb = {tuple(x['key']): self._terms(x['terms']) for x in d['coulomb']}
        self._cconj = {tuple(x[:6]): x[6] for x in d['coulombconj']}
        self._tunnel = {x['key']: self._terms(x['terms']) for x in d['tunnel']}
        self._phonon = {tuple(x['key']): self._terms(x['terms']) for x in d['phonon']}
        self.raise_ = self._terms(d['raise'])

    @staticmethod
    def _terms(t):
        return np.array(t, dtype=int).reshape(-1, 4)

    def _add(self, M, t, v):
        v = complex(v)
        np.add.at(M, (t[:, 0], t[:, 1]), t[:, 2] * np.where(t[:, 3] == 1, v.conjugate(), v))

    def hamiltonian(self, hsingle, coulomb, herm_hs=True, herm_c=False, m_less_n=True):
        H = np.zeros((self.dim, self.dim), complex)
        for k, v in hsingle.items():
            self._add(H, self._hop[(tuple(k), int(herm_hs))], v)
        for k, v in coulomb.items():
            t = self._coulomb[tuple(k)]
            self._add(H, t, v)
            if self._cconj[tuple(k) + (int(herm_c), int(m_less_n))]:
                np.add.at(H, (t[:, 1], t[:, 0]), t[:, 2] * complex(v).conjugate())
        return H

    def tunneling(self, nleads, tleads):
        T = np.zeros((nleads, self.dim, self.dim), complex)
        for (l, i), v in tleads.items():
            self._add(T[l], self._tunnel[i], v)
        return T

    def phonon(self, nbaths, velph):
        V = np.zeros((nbaths, self.dim, self.dim), complex)
        for (b, i, j), v in velph.items():
            self._add(V[b], self._phonon[(i, j)], v)
        return V

    def spin_raise(self):
        S = np.zeros((self.dim, self.dim))
        np.add.at(S, (self.raise_[:, 0], self.raise_[:, 1]), self.raise_[:, 2])
        return S


def tables(ns, info=None):
    """Checks the operator algebra and loads the tables for every number of orbitals."""
    from concurrent.futures import ThreadPoolExecutor

    def one(n):
        # the algebra in every state; two-body laws by enumeration up to 5 orbitals
        inv = 'OneBodyLaws TwoBodyLaws'
        r = tlc.run('FockGen', cfg=CFG % (n, inv), outputs=['fock.json'], workers=4, timeout=800)
        return n, Fock(r.data['fock.json'])
    with ThreadPoolExecutor(4) as ex:
        return dict(ex.map(one, sorted(ns)))


def blocks(s):
    """(labels of the eigenstates, Fock labels, Hamiltonian or None, eigenvectors or None) of every block."""
    si, qd = s.si, s.qd
    out = []
    if si.indexing == 'sz':
        for q in range(si.ncharge):
            for k in range(len(si.szlst[q])):
                lab = list(si.szlst[q][k])
                out.append((lab, lab, qd.hamlst[q][k], qd.vecslst[q][k]))
    elif si.indexing == 'ssq':
        for q in range(si.ncharge):
            for k in range(len(si.szlst[q])):
                foc = list(si.szlst[q][k])
                for m in range(len(si.ssqlst[q][k])):
                    out.append((list(si.ssqlst[q][k][m]), foc, qd.hamlst[q][k] if m == 0 else None,
                                qd.vecslst[q][k][m]))
    else:
        for q in range(si.ncharge):
            lab = list(si.chargelst[q])
            out.append((lab, lab, qd.hamlst[q], qd.vecslst[q]))
    return out


def lin(s):
    """Lin code of the occupation of every label."""
    n = s.si.nsingle
    return np.array([sum(int(x) << (n - 1 - k) for k, x in enumerate(s.si.get_state(b)))
                     for b in range(s.si.nmany)], dtype=int)


def eigenvectors(s):
    """Columns: the reported eigenstates by label; rows: Lin codes."""
    L = lin(s)
    W = np.zeros((2 ** s.si.nsingle, s.si.nmany), complex)
    for lab, foc, _, vec in blocks(s):
        if len(lab):
            W[np.ix_(L[foc], lab)] = np.asarray(vec)
    return W
