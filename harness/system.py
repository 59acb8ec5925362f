"""Random physical systems as plain data, and their construction with the code under test."""
import numpy as np

from . import scratch, tlc

FIRST = ['Pauli', 'Lindblad', 'Redfield', '1vN']
COMPILED = FIRST + ['RTD', '2vN']


def cplx(x):
    """Numbers travel as [re, im] or as plain reals."""
    return complex(*x) if isinstance(x, (list, tuple)) else x


def todict(lst):
    """[[index..., value], ...] -> {(index...): value}"""
    return {tuple(r[:-1]): cplx(r[-1]) for r in lst}


def fromdict(d):
    return [list(k) + [[v.real, v.imag] if isinstance(v, complex) else v] for k, v in d.items()]


def z(rng, scale=1., real=False):
    x = scale * (0.3 + rng.random()) * rng.choice([-1, 1])
    if real:
        return float(x)
    return [float(x), float(scale * rng.normal())]


def random_dot(rng, N, real=False, spin=None, coulomb=True, density=0.7):
    """hsingle and coulomb elements.  spin: None, 'sz' (conserves spin projection), 'ssq' (rotation invariant).

    The pairwise elements are generated as 'canonical' ones, so that the default hermiticity options apply."""
    h, U = [], []
    half = N // 2
    if spin == 'ssq':
        for i in range(half):
            e = float(rng.normal())
            h += [[i, i, e], [i + half, i + half, e]]
            for j in range(i + 1, half):
                if rng.random() < density:
                    v = z(rng, 0.6, real)
                    h += [[i, j, v], [i + half, j + half, v]]
        if coulomb:
            for m in range(half):
                for n in range(m, half):
                    u = float(rng.random() * 3)
                    for s in (0, half):
                        for t in (0, half):
                            if (m, s) == (n, t) or (m == n and s > t):
                                continue
                            U.append([m + s, n + t, n + t, m + s, u])
        return h, U
    for i in range(N):
        h.append([i, i, float(rng.normal())])
        for j in range(i + 1, N):
            if spin == 'sz' and (i < half) != (j < half):
                continue
            if rng.random() < density:
                h.append([i, j, z(rng, 0.6, real)])
    if coulomb:
        for m in range(N):
            for n in range(m + 1, N):
                U.append([m, n, n, m, float(rng.random() * 3)])
    return h, U


def random_tunnel(rng, N, nleads, real=False, scale=0.3, spin=None, density=0.85):
    """Amplitudes tleads; in the spin-resolved cases the first half of
    the leads couples to spin up, with 'ssq' the second half is the spin-down copy of the first."""
    t = []
    if spin == 'ssq':
        half, hl = N // 2, nleads // 2
        for l in range(hl):
            for i in range(half):
                v = z(rng, scale, real)
                t += [[l, i, v], [l + hl, i + half, v]]
        return t
    for l in range(nleads):
        for i in range(N):
            if spin == 'sz' and (l < nleads // 2) != (i < N // 2):
                continue
            if rng.random() < density or i == l % N:
                t.append([l, i, z(rng, scale, real)])
    return t


def random_leads(rng, nleads, wide=None):
    """Chemical potentials, temperatures and band edges."""
    mu = [float(rng.normal()) for _ in range(nleads)]
    temp = [float(0.4 + rng.random()) for _ in range(nleads)]
    if wide:
        band = [[-wide * (1 + float(rng.random())), wide * (1 + float(rng.random()))] for _ in range(nleads)]
    else:
        band = [[m - 2.5 - 3 * float(rng.random()), m + 2.5 + 3 * float(rng.random())] for m in mu]
    return mu, temp, band


def random_system(rng, N, nleads, kerntype, indexing='charge', itype=None, real=False, **kw):
    spin = indexing if indexing in ('sz', 'ssq') else None
    if itype is None:
        itype = int(rng.integers(0, 4))
    h, U = random_dot(rng, N, real, spin, coulomb=rng.random() < 0.8)
    t = random_tunnel(rng, N, nleads, real, spin=spin)
    mu, temp, band = random_leads(rng, nleads, wide=(30. if itype == 1 else (None if rng.random() < 0.6 else 20.)))
    if spin == 'ssq':
        hl = nleads // 2
        mu, temp, band = mu[:hl] * 2, temp[:hl] * 2, band[:hl] * 2
    c = dict(nsingle=N, hsingle=h, coulomb=U, nleads=nleads, tleads=t, mulst=mu, tlst=temp, dband=band,
             kerntype=kerntype, indexing=indexing, itype=itype)
    c.update(kw)
    return c


def random_baths(rng, N, nbaths, real=False, spin=None, hermitian=False, scale=0.2):
    v, half = [], N // 2
    for b in range(nbaths):
        for i in range(N):
            for j in range(N):
                if spin in ('sz', 'ssq') and (i < half) != (j < half):
                    continue
                if spin == 'ssq' and i >= half:
                    continue
                if hermitian and j < i:
                    continue
                if rng.random() < 0.75:
                    x = z(rng, scale, real or (hermitian and i == j))
                    v.append([b, i, j, x])
                    if hermitian and i != j:
                        v.append([b, j, i, x if real else [x[0], -x[1]]])
                    if spin == 'ssq':
                        v.append([b, i + half, j + half, x])
    temp = [float(0.4 + rng.random()) for _ in range(nbaths)]
    band = [[0.02 + 0.1 * float(rng.random()), 6. + 3 * float(rng.random())] for _ in range(nbaths)]
    return v, temp, band


def dos(a, p):
    """Density of states a*x^p of a bath, as the class that the compiled code asks for."""
    from qmeq.specfunc.c_specfunc_elph import Func

    class Dos(Func):
        def eval(self, x):
            return a * x ** p
    return Dos()


OPTIONS = ('kerntype', 'itype', 'symq', 'norm_row', 'solmethod', 'mfreeq', 'dqawc_limit', 'kpnt', 'off_diag_corrections')


def options(c):
    out = {k: c[k] for k in OPTIONS if k in c and k != 'off_diag_corrections'}
    for k in ('mtype_qd', 'mtype_leads'):
        if k in c:
            out[k] = {'float': float, 'complex': complex}[c[k]]
    return out


def build(c, **over):
    """The system of a case: single-particle or many-body input, with or without phonon baths."""
    import qmeq
    c = dict(c, **over)
    kw = options(c)
    dband = {i: list(x) for i, x in enumerate(c['dband'])}
    lead = dict(mulst={i: x for i, x in enumerate(c['mulst'])}, tlst={i: x for i, x in enumerate(c['tlst'])},
                dband=dband)
    ph = {}
    if c.get('nbaths'):
        ph = dict(tlst_ph={i: x for i, x in enumerate(c['tlst_ph'])},
                  dband_ph={i: list(x) for i, x in enumerate(c['dband_ph'])}, itype_ph=c.get('itype_ph', 2))
        if c.get('dos'):
            ph['bath_func'] = [dos(*x) for x in c['dos']]
        if 'eps_elph' in c:
            ph['eps_elph'] = c['eps_elph']
    if 'Ea' in c:
        E, T = np.array(c['Ea'], dtype=float), carray(c['Tba'])
        if ph:
            kind = ph.pop('itype_ph')       # not an argument of this builder
            s = qmeq.BuilderManyBodyElPh(Ea=E, Na=list(c['Na']), Tba=T, Vbbp=carray(c['Vbbp']), **lead, **ph, **kw)
            s.itype_ph = kind
            return s
        return qmeq.BuilderManyBody(Ea=E, Na=list(c['Na']), Tba=T, **lead, **kw)
    for k in ('indexing', 'symmetry', 'herm_hs', 'herm_c', 'm_less_n'):
        if k in c:
            kw[k] = c[k]
    args = dict(nsingle=c['nsingle'], hsingle=todict(c['hsingle']), coulomb=todict(c['coulomb']),
                nleads=c['nleads'], tleads=todict(c['tleads']), **lead, **kw)
    if ph:
        return qmeq.BuilderElPh(nbaths=c['nbaths'], velph=todict(c['velph']), **args, **ph)
    s = qmeq.Builder(**args)
    if 'off_diag_corrections' in c:
        s.off_diag_corrections = c['off_diag_corrections']
    return s


def carray(x):
    """Complex array from nested [re, im] lists."""
    a = np.array(x, dtype=float)
    return a[..., 0] + 1j * a[..., 1]


def fromarray(a):
    a = np.asarray(a)
    return np.stack([a.real, a.imag], -1).tolist()


def density_matrix(s):
    """The reported density matrix in the labels of the system."""
    n = s.si.nmany
    rho = np.zeros((n, n), dtype=complex)
    for b in range(n):
        for bp in range(n):
            v = s.get_phi0(b, bp)
            rho[b, bp] = 0. if v is None else v
    return rho


def quantum_numbers(s):
    """(charge, spin projection, total spin) of every label as far as the indexing distinguishes them.

    Charge and spin projection are computed from the occupations, total spin from the reported table."""
    si = s.si
    if getattr(s, 'Na', None) is not None:
        return [(int(x),) for x in s.Na]
    out = []
    for lab in range(si.nmany):
        if si.indexing == 'ssq':
            q = si.ind_qn[lab]
            out.append((int(q[0]), int(q[1]), int(q[2])))
            continue
        occ = [int(x) for x in si.get_state(lab)]
        half = len(occ) // 2
        if si.indexing == 'sz':
            out.append((sum(occ), sum(occ[:half]) - sum(occ[half:])))
        else:
            out.append((sum(occ),))
    return out


def config(apr, qn, ph=False, ret=None, maxdE=None, E=None):
    """Configuration record for MasterEqGen."""
    n = len(qn)
    ret = list(range(n)) if ret is None else sorted(ret)
    low = min(q[0] for q in qn)
    pairs = [[b, bp] for b in ret for bp in ret if qn[b] == qn[bp]]
    phpairs = [list(p) for p in pairs]
    if apr == 'Pauli':
        pairs = [[b, b] for b in ret]
    elif maxdE is not None:
        pairs = [[b, bp] for b, bp in pairs if b == bp or abs(E[b] - E[bp]) <= maxdE]
    return dict(id=0, charge=[q[0] - low for q in qn], ret=ret, pairs=pairs, phpairs=phpairs, apr=apr, ph=ph)


_cache = {}


def terms(configs):
    """Term tables of the configurations, generated by TLC where not yet known."""
    import json
    import os
    from . import oracle
    keys = [json.dumps(dict(c, id=0), sort_keys=True) for c in configs]
    todo = {}
    for k, c in zip(keys, configs):
        if k not in _cache:
            todo.setdefault(k, dict(c, id=len(todo)))
    if todo:
        ks = list(todo)
        res = tlc.run('MasterEqGen', inputs={'configs.json': [todo[k] for k in ks]}, outputs=['terms.ndjson'],
                      timeout=800)
        for d in res.data['terms.ndjson']:
            _cache[ks[d['id']]] = oracle.Terms(d)
    return [_cache[k] for k in keys]


def preload(configs, jobs=6):
    """Generates the tables of many configurations with several TLC processes."""
    import json
    from concurrent.futures import ThreadPoolExecutor
    uniq = list({json.dumps(dict(c, id=0), sort_keys=True): c for c in configs}.values())
    uniq.sort(key=lambda c: -len(c['pairs']) * len(c['ret']))
    parts = [uniq[i::jobs] for i in range(jobs) if uniq[i::jobs]]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(terms, parts))
