"""C20: a single-particle system and its many-body twin go through histories of Twin.tla; after every solve everything
that can be asked of one equals what the other says under the permutation of the states.  The traces of both are
validated by SystemJudge."""
import contextlib
import io
import types
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from checks import firstorder as fo
from checks import histories as hi
from harness import oracle, runner, system, tlc

PROPERTY = 'C20'
ASSUMPTIONS = ['up to 3 single-particle states, 3 leads, 2 baths; every order of up to 8 states, particle numbers moved by -2..5',
               'results are compared where the configuration has a unique stationary state',
               'the many-body system is solved without diagonalisation (qdq=False), as documented']
TIME = {'quick': 400, 'thorough': 2800}
MC = 'SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMax = 2\nINVARIANTS Law SaneBoth EnabledAlike\nCHECK_DEADLOCK FALSE\n'
GEN = 'SPECIFICATION Spec\nCONSTANTS Depth = %d\nINVARIANTS Alike\nCHECK_DEADLOCK FALSE\n'
SORTS = ([0], [1], [0, 1], [1, 0], None)


def cases(tier, rng):
    num, depth = (900, 9) if tier == 'quick' else (7000, 14)
    seed = int(rng.integers(1, 10 ** 6))

    def one(i):
        return tlc.run('TwinGen', cfg=GEN % depth, outputs=['twins.ndjson'], timeout=600,
                       args=['-simulate', 'num=%d' % (num // 6), '-depth', str(depth + 3),
                             '-seed', str(seed * 10 + i)]).data['twins.ndjson']
    with ThreadPoolExecutor(6) as ex:
        got = [b for r in ex.map(one, range(6)) for b in r]
    return [dict(kind='twin-' + b['cf']['b'], cf=b['cf'], steps=b['steps'], vals=hi.values(rng, b['cf']), tier=tier) for b in got]


def permutation(rank, n):
    """The permutation with this rank (modulo n!) as a list: label -> position."""
    left, out = list(range(n)), []
    for k in range(n, 0, -1):
        out.append(left.pop(rank % k))
        rank //= k
    return np.array(out)


# ------------------------------------------------------------------ the pair
def handed(a, inv):
    """What the twin is given."""
    d = dict(Ea=np.array(a.Ea, float)[inv], Tba=np.array(a.Tba)[:, inv][:, :, inv])
    if a.si.nbaths:
        d['Vbbp'] = np.array(a.Vbbp)[:, inv][:, :, inv]
    return d


def twin(c, a, inv):
    import qmeq
    cf, V, o = c['cf'], c['vals'], c['cf']['o']

    def get(f):
        return V[f][0]
    charge = np.array([q[0] for q in system.quantum_numbers(a)])[inv] + cf['off']
    kw = dict(kerntype=o['kern'], itype=o['itype'], mfreeq=o['mfree'], symq=cf['symq'], kpnt=16, Na=charge.tolist(),
              mulst=get('mu'), tlst=get('temp'), dband={i: list(x) for i, x in enumerate(get('d'))}, **handed(a, inv))
    if not cf['nb']:
        b = qmeq.BuilderManyBody(**kw)
        # what the second-order approach asks of the single-particle states
        b.nsingle = b.si.nsingle = cf['n']
        b.leads.tleads_array = np.array(a.leads.tleads_array)
        return b
    b = qmeq.BuilderManyBodyElPh(tlst_ph=get('tp'), dband_ph={i: list(x) for i, x in enumerate(get('dp'))}, **kw)
    b.itype_ph = o['itypeph']
    return b


def order(s):
    return [int(x) for x in s.si.states_order]


def asked(s):
    """Everything that the queries say, by label (the queries take positions of the sorted states)."""
    o = order(s)
    n = s.si.nmany
    out = dict(success=bool(s.success))
    for k in ('current', 'energy_current', 'heat_current'):
        out[k] = np.array(getattr(s, k))
    rho = np.zeros((n, n), complex)
    rho[np.ix_(o, o)] = system.density_matrix(s)
    out['rho'] = rho
    if s.phi1 is not None:
        out['phi1'] = np.zeros((s.si.nleads, n, n), complex)
        for l in range(s.si.nleads):
            out['phi1'][(l,) + np.ix_(o, o)] = [[s.get_phi1(l, x, y) for y in range(n)] for x in range(n)]
    return out


def record(c, ctx):
    cf = c['cf']
    zero = {f: 0 for f in c['vals']}
    with contextlib.redirect_stdout(io.StringIO()):
        a = hi.construct(c, zero, cf['o'], 0, cf['symq'])
    b = None
    qa = [list(q) for q in system.quantum_numbers(a)]
    qb, E = None, ([0] * len(qa), None)
    ta, tb, seen = [], [], {}
    full = dict(op='solve', flags=dict(qd=True, rot=True, master=True, cur=True))
    flat = dict(op='solve', flags=dict(qd=False, rot=False, master=True, cur=True))
    scale, exact = 1., False
    perm = inv = None

    def log(which, e):
        if which != 'b':
            ta.append(dict(e=e, E=E[0], qn=qa, obs=hi.observe(a, qa)))
        if which != 'a':
            tb.append(dict(e=e, E=E[1], qn=qb, obs=hi.observe(b, qb)))

    def compare():
        x, y = asked(a), asked(b)
        back = {k: v for k, v in y.items()}
        back['rho'] = y['rho'][np.ix_(perm, perm)]
        if 'phi1' in y:
            back['phi1'] = y['phi1'][:, perm][:, :, perm]
        diff = {}
        if ('phi1' in x) != ('phi1' in y):
            diff['phi1'] = 'only one of the two has amplitudes'
        for k in x:
            if k == 'success':
                continue
            if k in back:
                u, v = np.asarray(x[k]), np.asarray(back[k])
                if u.shape != v.shape:
                    diff[k] = 'shapes %s and %s' % (u.shape, v.shape)
                elif (np.isfinite(u) != np.isfinite(v)).any():
                    diff[k] = 'not a number in only one of the two'
                elif np.isfinite(u).all():
                    diff[k] = [float(abs(u - v).max()), float(abs(u).max())]
        seen[len(ta)] = dict(success=[x['success'], y['success']], diff=diff, Ea=np.array(a.Ea).tolist(), Tba=system.fromarray(a.Tba),
                             V=system.fromarray(a.Vbbp) if cf['nb'] else None, kern=b.kerntype)
        e, t = np.asarray(b.Ea), np.asarray(b.Tba)
        if not (e[perm] == np.asarray(a.Ea)).all() or not (t[:, perm][:, :, perm] == np.asarray(a.Tba)).all():
            diff['energies and matrices'] = 'the ones that were given have changed'
    log('a', dict(op='new'))
    for lin in cf['gone']:
        a.remove_fock_states([lin])
        qa = [list(q) for q in system.quantum_numbers(a)]
        E = ([0] * len(qa), None)
        log('a', dict(op='fock', arg=lin))
    fail = []
    for e in c['steps']:
        e, op = dict(e), e['op']
        if op == 'solve':
            with contextlib.redirect_stdout(io.StringIO()):
                hi.master(a, full['flags'], a.kerntype, False)
            if b is None:
                perm = permutation(cf['perm'], a.si.nmany)
                inv = np.argsort(perm)
                b = twin(c, a, inv)
                qb = [list(q) for q in system.quantum_numbers(b)]
                ints, scale, exact = hi.integers(np.asarray(a.Ea))
                E = (ints, [ints[x] for x in inv])
                log('b', dict(op='new'))
            with contextlib.redirect_stdout(io.StringIO()):
                hi.master(b, flat['flags'], b.kerntype, True)
            ints, scale, exact = hi.integers(np.asarray(a.Ea))
            E = (ints, [ints[x] for x in inv])
            log('a', full)
            log('b', flat)
            compare()
            continue
        if op == 'change':
            hi.change(a, c, e['fam'], e['arg'])
            hi.change(b, c, e['fam'], e['arg'])
        elif op == 'hand':
            hi.change(a, c, e['fam'], e['arg'])
            log('a', dict(op='change', fam=e['fam'], arg=e['arg']))
            with contextlib.redirect_stdout(io.StringIO()):
                hi.master(a, full['flags'], a.kerntype, False)
            for k, v in handed(a, inv).items():
                setattr(b, k, v)
            if not cf['nb']:
                b.leads.tleads_array = np.array(a.leads.tleads_array)
            ints, scale, exact = hi.integers(np.asarray(a.Ea))
            E = (ints, [ints[x] for x in inv])
            log('b', dict(op='change', fam=e['fam'], arg=e['arg']))
            with contextlib.redirect_stdout(io.StringIO()):
                hi.master(b, flat['flags'], b.kerntype, True)
            log('a', full)
            log('b', flat)
            compare()
            continue
        elif op == 'kern':
            a.kerntype = e['val']
            b.kerntype = e['val']
        elif op == 'itype':
            a.itype = e['arg']
            b.itype = e['arg']
        elif op == 'mfree':
            a.mfreeq = b.mfreeq = bool(e['arg'])
        elif op == 'symq':
            a.symq = b.symq = bool(e['arg'])
        elif op == 'solm':
            v = None if e['val'] == 'none' else e['val']
            a.solmethod = v
            b.solmethod = v
        elif op == 'states':
            Ea = np.asarray(a.Ea)
            cut = hi.threshold(list(Ea - Ea.min()), e['arg'], exact)
            a.remove_states(cut)
            b.remove_states(cut)
            e['arg'] = int(np.ceil(cut * scale))
        elif op == 'coh':
            Ea = np.asarray(a.Ea)
            gaps = [abs(Ea[x] - Ea[y]) for x in range(len(qa)) for y in range(x) if qa[x] == qa[y]]
            cut = hi.threshold(gaps, e['arg'], exact)
            a.remove_coherences(cut)
            b.remove_coherences(cut)
            e['arg'] = int(np.floor(cut * scale))
        elif op == 'all':
            a.use_all_states()
            b.use_all_states()
        elif op == 'sort':
            srt = SORTS[e['arg']]
            a.sort_eigenstates(srt)
            b.sort_eigenstates(srt)
            oa, ob = order(a), order(b)
            if srt is not None:
                key = lambda E_, Q, o: [[(E_[x], Q[x][0])[p] for p in srt] for x in o]
                ka, kb = key(np.asarray(a.Ea), qa, oa), key(np.asarray(b.Ea), [[q[0] - cf['off']] for q in qb], ob)
                if ka != kb or sorted(ob) != list(range(len(qb))):
                    fail.append('sorted by %s the states are %s and, given as many-body states, %s' % (srt, ka, kb))
            elif ob != list(range(len(qb))):
                fail.append('the unsorted order is %s' % ob)
        log('ab', e)
    return dict(ta=ta, tb=tb, seen=seen, fail=fail, n=len(ta))


# ------------------------------------------------------------------ judging
def prepare(cases, info):
    tier = cases[0].get('tier', 'quick')
    tlc.run('TwinMC', cfg=MC % (2 if tier == 'quick' else 3), workers=6, timeout=1500)
    recs = runner.pool(types.SimpleNamespace(run=record), cases, None)
    traces, out = [], {}
    for c, r in zip(cases, recs):
        out[c['id']] = [r, [], []]
        if not r.get('ta'):
            continue
        big = dict(c['cf'], b='mb' if c['cf']['b'] == 'base' else 'mbelph', o=dict(c['cf']['o'], ix='charge'))
        traces.append(dict(id=2 * c['id'], cf=c['cf'], steps=r['ta']))
        traces.append(dict(id=2 * c['id'] + 1, cf=big, steps=r['tb']))
    parts = [traces[i::6] for i in range(6) if traces[i::6]]

    def one(p):
        return tlc.run('SystemJudge', inputs={'traces.ndjson': p}, outputs=['configs.ndjson', 'fails.ndjson'], timeout=800)
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, parts):
            for d in r.data['configs.ndjson']:
                if d['case'] % 2 == 0:
                    out[d['case'] // 2][1].append(d)
            for d in r.data['fails.ndjson']:
                out[d['case'] // 2][2].append(d)
    configs = []
    for c in cases:
        r, cfs, _ = out[c['id']]
        configs += [hi.eqconfig(c, r['ta'][d['step'] - 1], d) for d in cfs]
    system.preload([x for x in configs if x])
    return out


def gap(c, step, d, seen):
    """(condition of the stationary state, slack of the iterative solvers)"""
    cf = hi.eqconfig(c, step, d)
    if cf is None:
        return 1., 1e-4
    ver, vals, o = d['ver'], c['vals'], d['o']
    V = system.carray(seen['V']) if c['cf']['nb'] else None
    kw = dict(V=V, temp_ph=vals['tp'][ver['tp']], band_ph=vals['dp'][ver['dp']], itype_ph=o['itypeph']) if c['cf']['nb'] else {}
    p = oracle.Params(np.array(seen['Ea']), system.carray(seen['Tba']), vals['mu'][ver['mu']], vals['temp'][ver['temp']],
                      vals['d'][ver['d']], o['itype'], **kw)
    eq = oracle.Equation(cf['apr'], system.terms([cf])[0], p, cf['pairs'])
    _, g = eq.solve()
    return g, 1e-4 / (g * np.linalg.norm(eq.L, 2) + 1e-300)


def run(c, ctx):
    rec, configs, fails = ctx[c['id']]
    if rec['fail']:
        return {'fail': rec['fail']}
    fail = ['step %d of the %s system (%s): %s differ from the specification'
            % (x['step'], ('single-particle', 'many-body')[x['case'] % 2],
               rec['ta' if x['case'] % 2 == 0 else 'tb'][x['step'] - 1]['e'], ', '.join(x['what'])) for x in fails]
    n, done = rec['n'], 0
    for d in configs if not fail else []:
        got = rec['seen'].get(str(d['step']))
        if got is None:
            continue
        kern, o = d['o']['kern'], d['o']
        g, slack = gap(c, rec['ta'][d['step'] - 1], d, got)
        tol = max(1e-9, 1e-12 / max(g, 1e-9))
        if fo.uses_quad(kern, o['itype'], c['cf']['nb'], o['itypeph']):
            tol = max(tol, 1e-6 / max(g, 1e-9))
        if o['mfree']:
            tol = max(tol, slack, 1e-4)
        if 'RTD' in kern:
            tol = 1e-6
        story = '; '.join(str(x['e']) for x in rec['ta'][:d['step']])
        if g < 1e-6 or tol > 1e-2:
            continue
        ok = got['success']
        if ok[0] != ok[1]:
            if not o['mfree']:
                fail.append('success is %s, with many-body input %s (%s; %s)' % (ok[0], ok[1], kern, story))
            continue
        if not ok[0]:
            continue
        done += 1
        for k, v in got['diff'].items():
            n += 1
            if isinstance(v, str):
                fail.append('%s: %s (%s; %s)' % (k, v, kern, story))
            elif not v[0] <= tol * max(1., v[1]):
                fail.append('%s differs by %g between single-particle and many-body input (%s, order %s, offset %d; %s)'
                            % (k, v[0], kern, c['cf']['perm'], c['cf']['off'], story))
        if fail:
            break
    return {'fail': fail, 'n': n, 'compared': done}
