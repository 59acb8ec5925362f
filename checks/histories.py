"""Shared by C09 and C11: histories of System.tla replayed on real systems; TLC validates the recorded traces and
says in which configuration every solve took place; the results are compared with a fresh system put directly
into this configuration and with the equations of MasterEq.tla."""
import contextlib
import io
import types
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from checks import firstorder as fo
from harness import oracle, runner, system, tlc

CFG = 'SPECIFICATION Spec\nCONSTANTS Depth = %d\nFocus = "%s"\nCHECK_DEADLOCK FALSE\n'
SPIN = ('sz', 'ssq')


# ------------------------------------------------------------------ histories
def generate(focus, seed, num, depth, jobs=6):
    def one(i):
        return tlc.run('SystemGen', cfg=CFG % (depth, focus), outputs=['histories.ndjson'], timeout=600,
                       args=['-simulate', 'num=%d' % (num // jobs), '-depth', str(depth + 3),
                             '-seed', str(seed * 10 + i)]).data['histories.ndjson']
    with ThreadPoolExecutor(jobs) as ex:
        return [b for r in ex.map(one, range(jobs)) for b in r]


def make_cases(focus, rng, num, depth):
    out = []
    for b in generate(focus, int(rng.integers(1, 10 ** 6)), num, depth):
        out.append(dict(kind=focus, cf=b['cf'], steps=b['steps'], vals=values(rng, b['cf'])))
    return out


def dy(rng, lo, hi, q=64):
    """A multiple of 1/q: sums and differences of such numbers are exact."""
    return float(int(rng.integers(lo * q, hi * q + 1))) / q


def values(rng, cf):
    """Four versions of every parameter family; the last ones break the system (no tunneling, narrow bands)."""
    n, nl, nb, ix, half = cf['n'], cf['nl'], cf['nb'], cf['o']['ix'], cf['n'] // 2
    out = {f: [] for f in ('h', 't', 'mu', 'temp', 'd', 'v', 'tp', 'dp')}

    def num(s=1, real=False):
        return [dy(rng, -s, s), 0. if real else dy(rng, -s, s)]
    for k in range(4):
        if cf['b'] in ('mb', 'mbelph'):
            m = n + 2
            out['h'].append([dy(rng, -2, 2) for _ in range(m)])
            T = np.zeros((nl, m, m, 2))
            Na = cf.setdefault('Na', [int(x) for x in rng.permutation([0, 1] + [int(y) for y in rng.integers(0, 3, m - 2)])])
            if k < 3:
                for l in range(nl):
                    for a in range(m):
                        for b in range(m):
                            if Na[a] == Na[b] + 1:
                                x = num(.4)
                                T[l, a, b] = x
                                T[l, b, a] = [x[0], -x[1]]
            out['t'].append(T.tolist())
            V = np.zeros((nb, m, m, 2))
            for l in range(nb):
                for a in range(m):
                    for b in range(m):
                        if Na[a] == Na[b]:
                            V[l, a, b] = num(.3)
            out['v'].append(V.tolist())
        else:
            h, u, t, v = [], [], [], []
            for i in range(n if ix != 'ssq' else half):
                h.append([i, i, dy(rng, -2, 2)])
                if ix == 'ssq':
                    h.append([i + half, i + half, h[-1][2]])
                for j in range(i + 1, n if ix != 'ssq' else half):
                    if ix == 'sz' and (i < half) != (j < half):
                        continue
                    if not cf['diag']:
                        x = num(.5)
                        h.append([i, j, x])
                        if ix == 'ssq':
                            h.append([i + half, j + half, x])
            if ix == 'ssq':
                for a in range(half):
                    for b in range(a, half):
                        x = dy(rng, 0, 2)
                        for s in (0, half):
                            for w in (0, half):
                                if (a, s) != (b, w) and not (a == b and s > w):
                                    u.append([a + s, b + w, b + w, a + s, x])
                t = [[l, i, num(.4)] for l in range(1) for i in range(half)]
                t += [[1, i + half, x] for _, i, x in t]
            else:
                for a in range(n):
                    for b in range(a + 1, n):
                        u.append([a, b, b, a, dy(rng, 0, 2)])
                t = [[l, i, num(.4)] for l in range(nl) for i in range(n)
                     if ix != 'sz' or (l < nl // 2) == (i < half)]
            for b in range(nb):
                for i in range(n):
                    for j in range(n):
                        if ix in SPIN and (i < half) != (j < half) or (ix == 'ssq' and i >= half):
                            continue
                        x = num(.25)
                        v.append([b, i, j, x])
                        if ix == 'ssq':
                            v.append([b, i + half, j + half, x])
            out['h'].append([h, u])
            out['t'].append(t if k < 3 else [r[:2] + [0.] for r in t])
            out['v'].append(v)
        same = ix == 'ssq'
        mu = [dy(rng, -1, 1) for _ in range(nl)]
        temp = [dy(rng, .25, 1.5) for _ in range(nl)]
        # (a principal value diverges with a transition exactly on the band edge)
        d = [dy(rng, 5, 9) + 2. ** -11 for _ in range(nl)] if k < 3 else [dy(rng, .25, .5) + 2. ** -11 for _ in range(nl)]
        out['mu'].append([mu[0]] * nl if same else mu)
        out['temp'].append([temp[0]] * nl if same else temp)
        out['d'].append([[-x, x] for x in ([d[0]] * nl if same else d)])
        out['tp'].append([dy(rng, .25, 1.5) for _ in range(nb)])
        out['dp'].append([[2. ** -6 - 2. ** -11, dy(rng, 5, 8) + 2. ** -11] for _ in range(nb)])
    return out


# ------------------------------------------------------------------ the real system
def construct(c, ver, o, norm, symq, solm=None):
    import qmeq
    cf, V = c['cf'], c['vals']

    def get(f):
        return V[f][ver[f]]
    kw = dict(kerntype=o['kern'], itype=o['itype'], mfreeq=o['mfree'], norm_row=norm, symq=symq,
              solmethod=None if solm in (None, 'none') else solm, kpnt=16,
              mulst=get('mu'), tlst=get('temp'), dband={i: list(x) for i, x in enumerate(get('d'))})
    ph = dict(tlst_ph=get('tp'), dband_ph={i: list(x) for i, x in enumerate(get('dp'))}) if cf['nb'] else {}
    if cf['b'] in ('mb', 'mbelph'):
        kw.update(Ea=np.array(get('h'), float), Na=cf['Na'], Tba=system.carray(get('t')))
        if not ph:
            return qmeq.BuilderManyBody(**kw)
        s = qmeq.BuilderManyBodyElPh(Vbbp=system.carray(get('v')), **ph, **kw)
        s.itype_ph = o['itypeph']
        return s
    h, u = get('h')
    kw.update(nsingle=cf['n'], indexing=o['ix'], hsingle=system.todict(h), coulomb=system.todict(u), nleads=cf['nl'],
              tleads=system.todict(get('t')))
    if ph:
        return qmeq.BuilderElPh(nbaths=cf['nb'], velph=system.todict(get('v')), itype_ph=o['itypeph'], **ph, **kw)
    return qmeq.Builder(**kw)


def change(s, c, f, k):
    v, many = c['vals'][f][k], c['cf']['b'] in ('mb', 'mbelph')
    band = {i: tuple(x) for i, x in enumerate(v)} if f in ('d', 'dp') else None
    if f == 'h':
        if many:
            s.Ea = np.array(v, float)
        else:
            s.change(hsingle=system.todict(v[0]), coulomb=system.todict(v[1]))
    elif f == 't':
        if many:
            s.Tba = system.carray(v)
        else:
            s.change(tleads=system.todict(v))
    elif f == 'v':
        if many:
            s.Vbbp = system.carray(v)
        else:
            s.change(velph=system.todict(v))
    else:
        s.change(**{dict(mu='mulst', temp='tlst', d='dlst', tp='tlst_ph', dp='dlst_ph')[f]: band or v})


def integers(E):
    """(integers behind the energies, scale, exact)"""
    for q in (64., 1024.):
        if (E * q == np.round(E * q)).all():
            return [int(x) for x in E * q], q, True
    return [int(x) for x in np.round(E * 2. ** 24)], 2. ** 24, False


def threshold(vals, rank, exact):
    """A threshold among the given distances: on one of them (if these are exact) or between two of them."""
    v = [0.] + [x for x in sorted(vals) if x > 0]
    v = [x for i, x in enumerate(v) if i == 0 or x - v[i - 1] > 1e-3] + [v[-1] + 1.]
    opts = [0.5 * (a + b) for a, b in zip(v[:-1], v[1:]) if b - a > 2e-3]
    if exact:
        # a threshold is a multiple of half the energy unit, so that nothing is rounded
        opts += [x for x in v[1:]]
    return sorted(opts)[rank % len(opts)]


def observe(s, qn):
    si = s.si
    kept = [int(b) for q in range(si.ncharge) for b in si.statesdm[q]]
    low = [i for i in range(si.ncharge)]
    where = {int(b): q for q in range(si.ncharge) for b in si.statesdm[q]}
    pairs = [[a, b] for a in kept for b in kept
             if qn[a] == qn[b] and int(si.get_ind_dm0(a, b, where[a], maptype=1)) != -1]
    return dict(kept=kept, pairs=pairs, kern=s.kerntype, itype=int(s.itype), mfree=bool(s.mfreeq), ix=s.indexing,
                norm=int(s.norm_row), symq=bool(s.symq), solm=str(s.solmethod).lower())


def rows(a):
    return system.fromarray(np.asarray(a))


def order(s):
    """Position -> label."""
    return [int(x) for x in s.si.states_order]


def by_label(s, a):
    """A table by position as a table by label."""
    o, out = order(s), np.zeros_like(np.asarray(a))
    out[..., np.array(o)[:, None], np.array(o)[None, :]] = a
    return out


def result(s, fl):
    d = dict(success=bool(s.success), rho=rows(by_label(s, system.density_matrix(s))), Ea=np.asarray(s.Ea, float).tolist(),
             Tba=rows(s.Tba))
    if fl.get('cur', True):
        for k in ('current', 'energy_current', 'heat_current'):
            d[k] = rows(getattr(s, k))
    if s.phi1 is not None:
        d['phi1'] = [rows(by_label(s, [[s.get_phi1(l, a, b) for b in range(s.si.nmany)] for a in range(s.si.nmany)]))
                     for l in range(s.si.nleads)]
    return d


def master(s, fl, kern, many):
    kw = dict(qdq=fl['qd'] and not many, rotateq=fl['rot'], masterq=fl['master'], currentq=fl['cur'])
    if '2vN' in kern:
        kw['niter'] = 2
    s.solve(**kw)


def record(c, ctx, asked=None):
    """Replays the history; returns the trace for TLC and the result of every solve."""
    cf = c['cf']
    many = cf['b'] in ('mb', 'mbelph')
    with contextlib.redirect_stdout(io.StringIO()):
        s = construct(c, {f: 0 for f in c['vals']}, cf['o'], cf['norm'], cf['symq'])
    qn = [list(q) for q in system.quantum_numbers(s)]
    E, scale, exact = integers(np.asarray(s.Ea)) if many else ([0] * len(qn), 1., False)
    steps, res, gone, bad = [], {}, set(), []
    c['now'] = {f: 0 for f in c['vals']}

    def log(e):
        steps.append(dict(e=e, E=E, qn=qn, obs=observe(s, qn)))
        if asked:
            _, inv = np.unique(np.asarray(s.Ea), return_inverse=True)
            steps[-1].update(rank=[int(x) for x in inv], order=order(s))
    log(dict(op='new'))
    for e in c['steps']:
        e, op = dict(e), e['op']
        if op == 'change':
            change(s, c, e['fam'], e['arg'])
            c['now'][e['fam']] = e['arg']
            if many and e['fam'] == 'h':
                E, scale, exact = integers(np.asarray(s.Ea))
        elif op == 'kern':
            s.kerntype = e['val']
        elif op == 'itype':
            s.itype = e['arg']
        elif op == 'mfree':
            s.mfreeq = bool(e['arg'])
        elif op == 'symq':
            s.symq = bool(e['arg'])
        elif op == 'norm':
            e['arg'] = int(min(e['arg'], s.si.npauli - 1))
            s.norm_row = e['arg']
        elif op == 'solm':
            s.solmethod = None if e['val'] == 'none' else e['val']
        elif op == 'fock':
            if s.si.nmany - (e['arg'] not in gone) < 3:
                continue
            gone.add(e['arg'])
            s.remove_fock_states([e['arg']])
            qn = [list(q) for q in system.quantum_numbers(s)]
            E, scale, exact = [0] * len(qn), 1., False
        elif op == 'states':
            Ea = np.asarray(s.Ea)
            cut = threshold(list(Ea - Ea.min()), e['arg'], exact)
            s.remove_states(cut)
            e['arg'] = int(np.ceil(cut * scale))     # E < cut for integers E
        elif op == 'coh':
            Ea = np.asarray(s.Ea)
            gaps = [abs(Ea[a] - Ea[b]) for a in range(len(qn)) for b in range(a) if qn[a] == qn[b]]
            cut = threshold(gaps, e['arg'], exact)
            s.remove_coherences(cut)
            e['arg'] = int(np.floor(cut * scale))    # |dE| > cut
        elif op == 'all':
            s.use_all_states()
        elif op == 'sort':
            given = None if e['arg'] == [-1] else list(e['arg'])
            before = frozen(s)
            s.sort_eigenstates(given)
            bad += ['sorting by %s modifies %s' % (e['arg'], k) for k in changed(before, frozen(s))]
            if given is not None and given != e['arg']:
                bad.append('sorting by %s modifies the list that was given' % (e['arg'],))
        elif op == 'solve':
            if s.norm_row >= s.si.npauli:
                s.norm_row = 0
                log(dict(op='norm', arg=0))
            fl = e['flags']
            master(s, fl, s.kerntype, many)
            if fl['qd'] and not many:
                E, scale, exact = integers(np.asarray(s.Ea))
        log(e)
        if op == 'solve' and e['flags']['master']:
            res[len(steps)] = result(s, e['flags'])
            res[len(steps)]['cur'] = e['flags']['cur']
            if asked:
                before = frozen(s)
                more, ans = asked(s, c, e['flags'])
                bad += more + ['queries modify %s' % k for k in changed(before, frozen(s))]
                steps[-1]['ans'] = ans
    return dict(trace=dict(cf=cf, steps=steps), res=res, n=len(steps), fail=bad)


def frozen(s):
    out = {k: getattr(s, k) for k in ('phi0', 'phi1', 'current', 'energy_current', 'heat_current', 'Ea', 'Tba')}
    return {k: None if v is None else np.array(v) for k, v in out.items()}


def changed(a, b):
    return [k for k in a if (a[k] is None) != (b[k] is None)
            or a[k] is not None and (a[k].shape != b[k].shape or a[k].tobytes() != b[k].tobytes())]


def prepare(cases, info, record=record):
    """Records, lets TLC judge, and returns {case id: (record, configurations, failures)}."""
    mod = types.SimpleNamespace(run=record)
    recs = runner.pool(mod, cases, None)
    traces, out = [], {}
    for c, r in zip(cases, recs):
        out[c['id']] = [r, [], []]
        if r.get('trace'):
            traces.append(dict(r['trace'], id=c['id']))
    parts = [traces[i::6] for i in range(6) if traces[i::6]]

    def one(p):
        return tlc.run('SystemJudge', inputs={'traces.ndjson': p}, outputs=['configs.ndjson', 'fails.ndjson'], timeout=800)
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, parts):
            for d in r.data['configs.ndjson']:
                out[d['case']][1].append(d)
            for d in r.data['fails.ndjson']:
                out[d['case']][2].append(d)
    configs = []
    for c in cases:
        r, cfs, _ = out[c['id']]
        configs += [eqconfig(c, r['trace']['steps'][d['step'] - 1], d) for d in cfs]
    system.preload([x for x in configs if x])
    return out


def eqconfig(c, step, d):
    """Configuration of MasterEq.tla for a solve, where the approach is a first-order one."""
    apr = d['o']['kern'][2:] if d['o']['kern'].startswith('py') else d['o']['kern']
    if apr not in system.FIRST:
        return None
    qn = step['qn']
    low = min(q[0] for q in qn)
    kept = sorted(d['kept'])
    full = sorted([a, b] for a in kept for b in kept if qn[a] == qn[b])
    pairs = [[b, b] for b in kept] if apr == 'Pauli' else sorted(d['pairs'])
    return dict(id=0, charge=[q[0] - low for q in qn], ret=kept, pairs=pairs, phpairs=full, apr=apr, ph=bool(c['cf']['nb']))


# ------------------------------------------------------------------ the reference
def restrict_directly(f, kept, pairs, qn):
    """Brings a fresh system to the given states and coherences, whatever its energies are."""
    n, E = f.si.nmany, np.array(f.Ea)
    try:
        if len(kept) < n:
            f.Ea = np.array([0. if b in kept else 1. for b in range(n)])
            f.remove_states(0.5)
        have = {tuple(p) for p in pairs}
        for a in kept:
            for b in kept:
                if a < b and qn[a] == qn[b] and (a, b) not in have:
                    x = np.zeros(n)
                    for k in range(n):
                        # all members of the multiplets
                        if member(qn, f, k, a):
                            x[k] = 1.
                        elif member(qn, f, k, b):
                            x[k] = -1.
                    f.Ea = x
                    f.remove_coherences(1.5)
    finally:
        f.Ea = E


def member(qn, f, k, a):
    if f.si.indexing != 'ssq':
        return k == a
    p, q = f.si.ind_qn[k], f.si.ind_qn[a]
    return (p[0], p[2], p[3]) == (q[0], q[2], q[3])


def reference(c, step, d):
    """A fresh system in the configuration of a solve."""
    many = c['cf']['b'] in ('mb', 'mbelph')
    ver = d['ver']
    with contextlib.redirect_stdout(io.StringIO()):
        f = construct(c, ver, d['o'], d['norm'], d['symq'], d['solm'])
        if many:
            restrict_directly(f, set(d['kept']), d['pairs'], step['qn'])
            master(f, dict(qd=False, rot=False, master=True, cur=True), d['o']['kern'], True)
            return f
        parts = {}
        for name, v in (('E', dict(ver, h=d['ea'])), ('T', dict(ver, **d['rot']))):
            g = construct(c, v, d['o'], 0, True)
            if d['gone']:
                g.remove_fock_states(d['gone'])
            g.solve(masterq=False)
            parts[name] = g
        if d['gone']:
            f.remove_fock_states(d['gone'])
        f.Ea = np.array(parts['E'].Ea)
        f.Tba = np.array(parts['T'].Tba)
        if c['cf']['nb']:
            f.Vbbp = np.array(parts['T'].Vbbp)
        restrict_directly(f, set(d['kept']), d['pairs'], step['qn'])
        master(f, dict(qd=False, rot=False, master=True, cur=True), d['o']['kern'], False)
    return f


def numbers(x):
    return system.carray(x)


def compare(c, step, d, res):
    """Differences between a recorded solve and the configuration that TLC ascribes to it."""
    f = reference(c, step, d)
    ref, fail, kern = result(f, {}), [], d['o']['kern']
    cf = eqconfig(c, step, d)
    tol = 1e-9
    n = 1
    E, T = np.array(res['Ea']), numbers(res['Tba'])
    for k, a, b in (('energies', E, np.array(ref['Ea'])), ('Tba', T, numbers(ref['Tba']))):
        if a.shape != b.shape or abs(a - b).max() > 1e-10:
            return ['%s are %s, a fresh system has %s' % (k, a.tolist(), b.tolist())], n, True
    unique, eq, p = True, None, None
    if cf is not None:
        V = np.array(f.Vbbp) if c['cf']['nb'] else None
        ver, vals, o = d['ver'], c['vals'], d['o']
        kw = dict(V=V, temp_ph=vals['tp'][ver['tp']], band_ph=vals['dp'][ver['dp']], itype_ph=o['itypeph']) if c['cf']['nb'] else {}
        p = oracle.Params(E, T, vals['mu'][ver['mu']], vals['temp'][ver['temp']], vals['d'][ver['d']], o['itype'], **kw)
        eq = oracle.Equation(cf['apr'], system.terms([cf])[0], p, cf['pairs'])
        eq.terms = system.terms([cf])[0]
        eq.mfree = d['o']['mfree']
        eq.quad = fo.uses_quad(o['kern'], o['itype'], c['cf']['nb'], o['itypeph'])
        _, gap = eq.solve()
        unique = gap > 1e-6
        if eq.mfree:
            # the iterative solvers stop when the residual is below 6e-6 in absolute terms
            slack = 1e-4 / (gap * np.linalg.norm(eq.L, 2) + 1e-300)
            unique = unique and slack < 1e-2
        tol = max(tol, 1e-12 / max(gap, 1e-9))
    if res['success'] != ref['success'] and (unique or not d['o']['mfree']):
        fail.append('success is %s, for a fresh system %s' % (res['success'], ref['success']))
    if not (res['success'] and ref['success']) or not unique:
        return fail, n, False
    if d['o']['mfree']:
        tol = max(1e-4, slack) if eq is not None else 1e-4
    elif 'RTD' in kern:
        tol = 1e-6
    rho, rr = numbers(res['rho']), numbers(ref['rho'])
    if not np.isfinite(rr).all():
        # (a broken configuration)
        return fail, n, False
    if not abs(rho - rr).max() <= tol * max(1., abs(rr).max()):
        fail.append('density matrix differs from that of a fresh system by %g' % abs(rho - rr).max())
    keys = [k for k in ('current', 'energy_current', 'heat_current') if res['cur']] + (['phi1'] if 'phi1' in ref and res['cur'] else [])
    for k in keys:
        if k not in res:
            fail.append('%s is missing' % k)
            continue
        a, b = numbers(res[k]), numbers(ref[k])
        n += 1
        if not np.isfinite(b).all():
            continue
        if a.shape != b.shape or not abs(a - b).max() <= tol * max(1., abs(b).max()):
            fail.append('%s is %s, for a fresh system %s' % (k, a.tolist(), b.tolist()))
    if eq is not None:
        apr = cf['apr']
        lim = max(2e-4, slack) if d['o']['mfree'] else (5e-6 if apr in ('1vN', 'Redfield') and d['o']['itype'] == 0 else 1e-9)
        fail += fo.check_state(None, eq, cf, rho, lim)
        n += len(cf['pairs'])
        if res['cur']:
            s = types.SimpleNamespace(**{k: numbers(res[k]).real for k in ('current', 'energy_current', 'heat_current')})
            cc = dict(kerntype=kern, nbaths=c['cf']['nb'])
            # balance holds for the full equation; only the functionals are compared here
            fail += fo.check_currents(s, eq, p, cc, rho, lim)
            n += 3
    return fail, n, True


def run(c, ctx):
    rec, configs, fails = ctx[c['id']]
    if rec['fail']:
        return {'fail': rec['fail']}
    fail, n, done = ['step %d (%s): %s differ from the specification' % (x['step'], rec['trace']['steps'][x['step'] - 1]['e'],
                                                                        ', '.join(x['what'])) for x in fails], rec['n'], 0
    steps = rec['trace']['steps']
    for d in configs if not fail else []:
        f, k, ok = compare(c, steps[d['step'] - 1], d, rec['res'][str(d['step'])])
        n += k
        done += ok
        if f:
            story = [x['e'] for x in steps[:d['step']]]
            fail.append('solve at step %d in the configuration %s: %s (history %s)'
                        % (d['step'], {k: d[k] for k in ('ver', 'o', 'norm', 'symq', 'solm', 'gone', 'ea', 'rot', 'kept')},
                           '; '.join(f[:3]), story))
            break
    return {'fail': fail, 'n': n, 'solves': len(configs), 'compared': done}
