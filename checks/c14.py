"""C14: histories of System.tla with sorting; the order of the states and the shape of every answer are validated
against Queries.tla, every answer is compared with the solution of the configuration that TLC ascribes to the solve,
and the printed descriptions with the Hamiltonian, the quantum numbers and the tunneling matrices."""
import contextlib
import io
import os
import re
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from checks import histories as hi
from harness import fock, scratch, system, tlc

PROPERTY = 'C14'
ASSUMPTIONS = ['up to 3 single-particle states (4 with total spin) or 5 many-body states, 3 leads, 2 baths',
               'descriptions are printed for systems with a Fock basis',
               'results are compared where the configuration has a unique stationary state']
TIME = {'quick': 400, 'thorough': 2800}
MC = 'SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMax = 1\n Props = %d\nINVARIANTS Laws Sorts Harmless\nCHECK_DEADLOCK FALSE\n'
TABLES = {}


def cases(tier, rng):
    return hi.make_cases('query', rng, 700 if tier == 'quick' else 5000, 12 if tier == 'quick' else 20)


# ------------------------------------------------------------------ printed descriptions
def parse(text):
    """Blocks of printed states."""
    out = []
    for line in text.split('\n'):
        m = re.match(r'Sorted label: (.*)$', line)
        if m:
            out.append(dict(sorted=int(m.group(1)), coeffs=[]))
            continue
        m = re.match(r'    \|([01]+)>: (.*)$', line)
        if m:
            out[-1]['coeffs'].append((m.group(1), complex(m.group(2).replace(' ', ''))))
            continue
        for key, pat in (('label', 'Original label'), ('charge', 'Charge'), ('energy', 'Energy'),
                         ('sz', r'S\^z \[in units of 1/2\]'), ('ssq', r'S\^2 \[in units of 1/2\]')):
            m = re.match(pat + r': (.*)$', line)
            if m:
                out[-1][key] = float(m.group(1))
    return out


def printed(s, eps=0., way='one'):
    if way == 'all':
        path = os.path.join(scratch.workdir(), 'states-%d.txt' % os.getpid())
        with open(path, 'w') as f:
            f.write('old\n')
        s.print_all_states(path, eps=eps, separator='')
        with open(path) as f:
            text = f.read()
        os.remove(path)
        if 'old' in text:
            raise AssertionError('print_all_states keeps the file')
        return parse(text)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        for x in range(s.si.nmany):
            s.print_state(x, eps=eps)
    return parse(buf.getvalue())


def check_prints(s, c, way):
    """Descriptions of a system that was just solved completely."""
    o, n = hi.order(s), s.si.nmany
    st = printed(s, 0., way)
    if [x['sorted'] for x in st] != list(range(n)) or [x['label'] for x in st] != o:
        return ['the printed labels are %s, the order %s' % ([(x['sorted'], x['label']) for x in st], o)]
    fail = []
    qn = system.quantum_numbers(s)
    E, T = np.asarray(s.Ea), np.asarray(s.Tba)
    N = s.si.nsingle
    W = np.zeros((2 ** N, n), complex)
    for x in st:
        b = int(x['label'])
        want = dict(zip(('charge', 'sz', 'ssq'), qn[b]))
        got = {k: x[k] for k in want if k in x}
        if got != want:
            fail.append('state %d is printed with %s, its quantum numbers are %s' % (b, got, want))
        if not abs(x['energy'] - E[b]) <= 1e-12 * (1 + abs(E[b])):
            fail.append('state %d is printed with the energy %s, reported %s' % (b, x['energy'], E[b]))
        sizes = [abs(v) for _, v in x['coeffs']]
        if any(u < v - 1e-12 for u, v in zip(sizes[:-1], sizes[1:])):
            fail.append('the coefficients of state %d are not printed in descending order: %s' % (b, x['coeffs']))
        for occ, v in x['coeffs']:
            q = occ.count('1')
            z = occ[:N // 2].count('1') - occ[N // 2:].count('1')
            if q != want['charge'] or ('sz' in want and z != want['sz']):
                fail.append('state %d is printed with |%s>' % (b, occ))
            W[int(occ, 2), b] = v
    if fail:
        return fail
    # the Hamiltonian and the tunneling operator between the printed vectors
    h, u = c['vals']['h'][c['now']['h']]
    F = TABLES[N]
    H = F.hamiltonian(system.todict(h), system.todict(u))
    left = sorted(hi_lin(s))
    K = np.zeros(2 ** N, bool)
    K[left] = True
    if abs(W[~K]).max(initial=0.) > 0:
        fail.append('printed states have components in removed Fock states')
    G = W.conj().T @ W
    if not abs(G - np.eye(n)).max() < 1e-9:
        fail.append('the printed states are not orthonormal')
    R = (H @ W - W * E)[K]
    if not abs(R).max() < 1e-8 * (1 + abs(E).max()):
        fail.append('the printed states are no eigenstates of the Hamiltonian with the printed energies (%g)' % abs(R).max())
    TF = F.tunneling(s.si.nleads, system.todict(c['vals']['t'][c['now']['t']]))
    D = abs(W.conj().T @ TF @ W - T).max()
    if not D < 1e-8:
        fail.append('the printed states do not belong to the tunneling matrices (%g)' % D)
    # with a threshold
    for x, y in zip(st, printed(s, 0.3, way)):
        want = sorted(o_ for o_, v in x['coeffs'] if abs(v) >= 0.3)
        close = [o_ for o_, v in x['coeffs'] if abs(abs(v) - 0.3) < 1e-9]
        if not close and sorted(o_ for o_, _ in y['coeffs']) != want:
            fail.append('with a threshold of 0.3 the coefficients of state %d are %s of %s' % (x['label'], y['coeffs'], x['coeffs']))
    return fail


def hi_lin(s):
    return [int(x) for x in fock.lin(s)]


def asked(s, c, fl):
    """Everything that is asked after a solve: (failures, shape of the answers)."""
    n = s.si.nmany
    fail = []
    p0 = np.array([[s.get_phi0(x, y) for y in range(n)] for x in range(n)], complex)
    p1 = np.full((n, n), -1)
    if bool(s.success) and np.isfinite(p0).all():
        # (the iterations of 2vN find the two halves separately)
        if not abs(p0 - p0.conj().T).max() <= (1e-10 * (1 + abs(p0).max()) if '2vN' in s.kerntype else 0.):
            fail.append('the answers for the density matrix are not hermitian')
        for l in range(s.si.nleads):
            A = [[s.get_phi1(l, x, y) for y in range(n)] for x in range(n)]
            if any(v is None for r in A for v in r):
                if any(v is not None for r in A for v in r):
                    fail.append('some amplitudes are missing')
                continue
            A = np.array(A, complex)
            p1 = np.maximum(p1, (A != 0).astype(int))
            if not (A == A.conj().T).all():
                fail.append('amplitudes in opposite order are not conjugate')
    if c['cf']['b'] in ('base', 'elph') and fl['qd'] and fl['rot']:
        fail += check_prints(s, c, 'all' if c['id'] % 3 == 0 else 'one')
    return fail, dict(there=bool(s.success) and bool(np.isfinite(p0).all()) and fl.get('cur', True), phi0=(p0 != 0).astype(int).tolist(), phi1=p1.tolist())


def record(c, ctx):
    return hi.record(c, ctx, asked)


def prepare(cases, info):
    for n, p in ((3, 2), (3, 3)) if len(cases) > 1000 else ((3, 2),):
        tlc.run('QueriesMC', cfg=MC % (n, p), workers=6)
    TABLES.update(fock.tables(sorted({c['cf']['n'] for c in cases if c['cf']['b'] in ('base', 'elph')})))
    out = hi.prepare(cases, info, record)
    traces = [dict(out[c['id']][0]['trace'], id=c['id']) for c in cases if out[c['id']][0].get('trace')]
    parts = [traces[i::6] for i in range(6) if traces[i::6]]

    def one(p):
        return tlc.run('QueriesJudge', inputs={'traces.ndjson': p}, outputs=['fails.ndjson'], timeout=800).data['fails.ndjson']
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, parts):
            for d in r:
                out[d['case']][2].append(d)
    return out


run = hi.run
