"""Shared by C05 and C06: behaviours of Params.tla generated by TLC, replayed on real systems."""
import copy
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from harness import fock, system, tlc

NAME = dict(h='hsingle', u='coulomb', t='tleads', v='velph', mu='mulst', temp='tlst', d='dband', tp='tlst_ph',
            dp='dband_ph')
CALL = dict(NAME, d='dlst', dp='dlst_ph')
SCALAR = ('mu', 'temp', 'd', 'tp', 'dp')


def behaviours(seed, num, depth=8, jobs=4):
    cfg = ('SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS Laws Spare Loud\nCHECK_DEADLOCK FALSE\n' % depth)

    def one(i):
        return tlc.run('ParamsGen', cfg=cfg, outputs=['behaviours.ndjson'], timeout=600,
                       args=['-simulate', 'num=%d' % (num // jobs), '-depth', str(depth + 1),
                             '-seed', str(seed * 10 + i)]).data['behaviours.ndjson']
    with ThreadPoolExecutor(jobs) as ex:
        return [b for r in ex.map(one, range(jobs)) for b in r]


def make_cases(tier, rng, num, depth):
    out = []
    for b in behaviours(int(rng.integers(1, 10 ** 6)), num, depth):
        cf = b['cf']
        n = 2 * cf['n'] if cf['spin'] else cf['n']
        hasfock = any(st['e']['op'] == 'fock' for st in b['steps'])
        ix = ['Lin', 'charge'] + (['sz'] + ([] if hasfock else ['ssq']) if cf['spin'] else [])
        out.append(dict(kind='spin' if cf['spin'] else 'plain', cf=cf, steps=b['steps'], nsingle=n,
                        indexing=str(rng.choice(ix)), scale=float(rng.choice([0.125, 0.125, 1.0, 0.03125])),
                        kerntype=str(rng.choice(['Pauli', '1vN', 'Lindblad', 'Redfield', 'pyPauli', 'pyLindblad'])),
                        itype=int(rng.choice([1, 2, 3])), parts=bool(rng.random() < .25)))
    return out


def value(f, v, scale):
    if f in ('d', 'dp'):
        return (v[0] * scale, v[1] * scale)
    if f in SCALAR:
        return v[0] * scale
    return complex(v[0], v[1]) * scale if v[1] else v[0] * scale


def container(cf, f, form, entries, scale):
    """The entries of a call in the given form."""
    rows = [(tuple(k), value(f, v, scale)) for k, v in entries]
    if f in SCALAR:
        pair = f in ('d', 'dp')
        single = form in ('dict1', 'list1', 'array1') or (form == 'number' and pair)
        rows = sorted((k[0], x[1] if single and pair else x) for k, x in rows)
        if form == 'number':
            return rows[0][1] if rows else 0.
        if form.startswith('dict'):
            return {k: (list(x) if pair and not single and k % 2 else x) for k, x in rows}
        lst = [list(x) if pair and not single else x for k, x in rows]
        return np.array(lst, dtype=float) if form.startswith('array') else lst
    if form == 'dict':
        return dict(rows)
    if form == 'list':
        return [list(k) + [x] if i % 2 else tuple(k) + (x,) for i, (k, x) in enumerate(rows)]
    cpl = any(isinstance(x, complex) for k, x in rows)
    dt = complex if cpl or scale == 1. else float
    if f == 'u':
        a = np.array([list(k) + [x] for k, x in rows], dtype=dt)
        return a.reshape(-1, 5)
    shape = dict(h=(cf['n'], cf['n']), t=(cf['nl'], cf['n']), v=(cf['nb'], cf['n'], cf['n']))[f]
    a = np.zeros(shape, dtype=dt)
    for k, x in rows:
        a[k] = x
        if f == 'h' and cf['herm']:
            a[k[::-1]] = np.conj(x)
    return a


def construct(c, kw, spin=True, **over):
    import qmeq
    cf = c['cf']
    two = 2 if cf['spin'] else 1
    args = dict(nsingle=c['nsingle'], nleads=two * cf['nl'], indexing=c['indexing'], kerntype=c['kerntype'],
                itype=c['itype'], herm_hs=cf['herm'], herm_c=cf['hermc'], m_less_n=cf['mln'],
                symmetry='spin' if cf['spin'] and spin else None)
    args.update(kw)
    args.update(over)
    if cf['nb']:
        return qmeq.BuilderElPh(nbaths=cf['nb'], itype_ph=2, **args)
    return qmeq.Builder(**args)


def direct(c, p, removed):
    """A system constructed with the predicted parameters, everything spelled out as dictionaries."""
    kw = {}
    for f, rows in p.items():
        if f in ('v', 'tp', 'dp') and not c['cf']['nb']:
            continue
        kw[NAME[f]] = {tuple(k) if len(k) > 1 else k[0]: value(f, v, c['scale']) for k, v in rows}
    s = construct(c, kw, spin=False)
    if removed:
        s.remove_fock_states(list(removed))
    return s


def stored(s, c, p):
    """Differences between the parameters that the system reports and the predicted ones."""
    fail, have = [], dict(h=s.hsingle, u=s.coulomb, t=s.tleads, mu=s.mulst, temp=s.tlst, d=s.dlst)
    if c['cf']['nb']:
        have.update(v=s.baths.velph, tp=s.baths.tlst_ph, dp=s.baths.dlst_ph)
    for f, h in have.items():
        want = {tuple(k): value(f, v, c['scale']) for k, v in p[f]}
        if f in SCALAR:
            h = np.asarray(h, dtype=float)
            w = np.array([want[(i,)] for i in range(len(want))], dtype=float)
            if h.shape != w.shape or (h != w).any():
                fail.append('%s is %s, expected %s' % (CALL[f], h.tolist(), w.tolist()))
            continue
        a = {k: v for k, v in h.items() if v != 0}
        b = {k: v for k, v in want.items() if v != 0}
        if set(a) != set(b) or any(abs(a[k] - b[k]) > 0 for k in a):
            d = [k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)]
            fail.append('%s%s is %s, expected %s' % (CALL[f], d[0], a.get(d[0], 0), b.get(d[0], 0)))
    arr = np.zeros((s.si.nleads, c['nsingle']), dtype=complex)
    for k, v in p['t']:
        arr[tuple(k)] = value('t', v, c['scale'])
    if np.asarray(s.tleads_array).shape != arr.shape or abs(np.asarray(s.tleads_array) - arr).max(initial=0.) > 0:
        fail.append('tleads_array is %s, expected %s' % (np.asarray(s.tleads_array).tolist(), arr.tolist()))
    return fail


def close(name, a, b, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return ['%s has the shape %s, expected %s' % (name, a.shape, b.shape)]
    if a.size == 0:
        return []
    ok = np.isclose(a, b, rtol=tol, atol=tol * max(1e-3, np.nanmax(abs(b)) if np.isfinite(b).any() else 1.), equal_nan=True)
    if not ok.all():
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        return ['%s%s is %s, expected %s' % (name, list(i), a[i], b[i])]
    return []


def flat(x):
    """Nested lists of arrays (None where nothing is stored)."""
    if isinstance(x, list):
        return [y for e in x for y in flat(e)]
    return [x]


def fock_basis(s, d):
    """Hamiltonian, tunneling and phonon matrices in the Fock basis of two systems."""
    fail = []
    for a, b in zip(flat(s.qd.hamlst), flat(d.qd.hamlst)):
        if a is not None and b is not None and not isinstance(a, int):
            fail += close('Hamiltonian', a, b)
    fail += close('Tba0', s.leads.Tba0, d.leads.Tba0)
    if hasattr(s, 'baths'):
        fail += close('Vbbp0', s.baths.Vbbp0, d.baths.Vbbp0)
    return fail


def against_tables(s, F, c, p):
    """The same against the operator tables of Fock.tla."""
    w = {f: {tuple(k): value(f, v, c['scale']) for k, v in p[f]} for f in 'hutv'}
    cf, L, fail = c['cf'], fock.lin(s), []
    H = np.zeros((F.dim, F.dim), complex)
    H += F.hamiltonian(w['h'], {}, cf['herm'])
    H += F.hamiltonian({}, w['u'], herm_c=cf['hermc'], m_less_n=cf['mln'])
    for lab, foc, ham, _ in fock.blocks(s):
        if ham is not None and len(foc):
            fail += close('Hamiltonian block', ham, H[np.ix_(L[foc], L[foc])])
    T = F.tunneling(s.si.nleads, w['t'])[:, L][:, :, L]
    fail += close('Tba0', s.leads.Tba0, T)
    if cf['nb']:
        fail += close('Vbbp0', s.baths.Vbbp0, F.phonon(cf['nb'], w['v'])[:, L][:, :, L])
    return fail


def hermitian(c, p):
    """Eigenvectors are defined for hermitian Hamiltonians only."""
    return True


def results(s):
    out = dict(Ea=np.array(s.Ea), Tba=np.array(s.Tba))
    if hasattr(s, 'baths'):
        out['Vbbp'] = np.array(s.baths.Vbbp)
    return out


def transport(s):
    return dict(phi0=np.array(s.phi0), current=np.array(s.current), energy=np.array(s.energy_current),
                heat=np.array(s.heat_current))


def unique(d):
    """Whether the master equation of a system has one stationary state only: two normalisation rows agree."""
    if not d.success or d.funcp.mfreeq or not np.isfinite(d.phi0).all():
        return False
    a, row = np.array(d.phi0), d.funcp.norm_row
    try:
        d.norm_row = 1 if d.si.ndm0r > 1 else 0
        d.solve(qdq=False, rotateq=False)
        return bool(d.success) and np.allclose(d.phi0, a, rtol=0, atol=1e-11)
    finally:
        d.norm_row = row


def same_solve(s, d, c, p, op):
    """Solves both systems in the same way and compares everything that is reported."""
    fail = []
    ok = all(v[0] > 0 for k, v in p['temp'] + p['tp'])
    kw = dict(qd=dict(masterq=False), keep=dict(rotateq=False, masterq=False),
              unrotated=dict(rotateq=False, masterq=False), solve=dict(masterq=ok))[op]
    if op == 'keep':
        # without rotation the matrices stay what they were, whatever they were
        old = [np.array(x) for x in results(s).values()][1:]
        s.solve(**kw)
        for a, b in zip(list(results(s).values())[1:], old):
            fail += close('matrix', a, b, 0)
        d.solve(**kw)
        return fail + close('Ea', s.Ea, d.Ea, 1e-10)
    if op == 'unrotated':
        s.leads.use_Tba0()
        if hasattr(s, 'baths'):
            s.baths.use_Vbbp0()
    s.solve(**kw)
    d.solve(**kw)
    a, b = results(s), results(d)
    for k in b:
        fail += close(k, a[k], b[k], 1e-10)
    if op == 'solve' and ok:
        if bool(s.success) != bool(d.success):
            fail.append('success is %s, expected %s' % (s.success, d.success))
        if s.success and d.success:
            a, b = transport(s), transport(d)
            if unique(d):
                for k in b:
                    fail += close(k, a[k], b[k], 1e-8)
    return fail


def behind(st):
    """The parameters behind the many-body operators."""
    return dict(st['p'], **st['q'])


def apply(s, c, ev):
    """One step of a behaviour; returns the containers that were passed and their copies."""
    op, cf = ev['op'], c['cf']
    call = ev['call'] or {}
    if op == 'fock':
        arg = [ev['arg']]
        s.remove_fock_states(arg)
        return [('remove_fock_states', arg, [ev['arg']])]
    cont = {f: container(cf, f, x['form'], x['entries'], c['scale']) for f, x in call.items()}
    keep = {f: copy.deepcopy(x) for f, x in cont.items()}
    if op == 'dband':
        s.dband = cont['d']
    elif op in ('add', 'change'):
        if c.get('parts'):
            # the parts of the system can be called themselves
            for part, fs in (('qd', 'hu'), ('leads', ('t', 'mu', 'temp', 'd')), ('baths', ('v', 'tp', 'dp'))):
                kw = {CALL[f]: cont[f] for f in fs if f in cont}
                if kw:
                    getattr(getattr(s, part), op)(**kw)
        else:
            getattr(s, op)(**{CALL[f]: x for f, x in cont.items()})
    elif op == 'quietadd':
        s.qd.add(cont['h'], cont['u'], updateq=False)
        if 't' in cont:
            s.leads.add(tleads=cont['t'], updateq=False)
        if 'v' in cont:
            s.baths.add(velph=cont['v'], updateq=False)
    elif op == 'quietchange':
        s.qd.change(cont['h'], cont['u'], updateq=False)
    elif op == 'renew':
        s.leads.update_Tba0(s.leads.si.nleads, cont['t'])
        if 'v' in cont:
            s.baths.update_Vbbp0(cf['nb'], cont['v'])
    return [(CALL[f], cont[f], keep[f]) for f in cont]


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


def spoil(x):
    """Changes a container in place, as its owner may."""
    if isinstance(x, np.ndarray):
        if x.size:
            x += 3
    elif isinstance(x, dict):
        for k in x:
            if isinstance(x[k], list):
                spoil(x[k])
            else:
                x[k] = (7., 9.) if isinstance(x[k], tuple) else 5.
        x[next(iter(x), None)] = 11.
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, list):
                spoil(y)
            else:
                x[i] = 13
        x.append(17)
