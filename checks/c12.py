"""C12: the complete transition table of Options.tla, replayed on construction and on every assignment."""
import contextlib
import io

import numpy as np

from harness import tlc

PROPERTY = 'C12'
ASSUMPTIONS = ['systems with 2 and 3 single-particle states; the table of option values and transitions is complete',
               'a custom class defines a kerntype of its own']
TIME = {'quick': 300, 'thorough': 1500}
CHUNK = 150


def cases(tier, rng):
    r = tlc.run('OptionsGen', outputs=['table.ndjson'], timeout=600,
                cfg='SPECIFICATION Spec\nCONSTANT Sizes = {2, 3}\nINVARIANT OnlySupported\nCHECK_DEADLOCK FALSE\n')
    rows = r.data['table.ndjson']
    rows = [rows[i] for i in rng.permutation(len(rows))]
    return [dict(kind='table', rows=rows[i:i + CHUNK], solves=4 if tier == 'quick' else 60)
            for i in range(0, len(rows), CHUNK)]


_classes = {}


def classes(bath):
    """Custom approaches derived from a pure Python and from a compiled one."""
    if bath in _classes:
        return _classes[bath]
    if bath:
        from qmeq.approach.elph.pauli import ApproachPauli as P
        from qmeq.approach.elph.c_redfield import ApproachRedfield as C
    else:
        from qmeq.approach.base.pauli import ApproachPauli as P
        from qmeq.approach.base.c_redfield import ApproachRedfield as C

    class CustomPy(P):
        kerntype = 'classPy'

        def generate_current(self):
            P.generate_current(self)
            self.seen = 'classPy'

    class CustomC(C):
        kerntype = 'classC'

        def generate_current(self):
            C.generate_current(self)
            self.seen = 'classC'
    _classes[bath] = dict(classPy=CustomPy, classC=CustomC)
    return _classes[bath]


def asked(b, k):
    return classes(b in ('elph', 'mbelph'))[k] if k.startswith('class') else k


def construct(b, n, q):
    import qmeq
    kw = dict(kerntype=asked(b, q['kern']), itype=q['itype'], mfreeq=q['mfree'], kpnt=32)
    nl = 2
    if b in ('mb', 'mbelph'):
        E, Na = np.array([0., .3, -.2, .7]), [0, 1, 1, 2]
        T = np.zeros((nl, 4, 4), complex)
        T[0, 1, 0] = T[0, 0, 1] = T[0, 3, 2] = T[0, 2, 3] = .3
        T[1, 2, 0] = T[1, 0, 2] = .25
        T[1, 3, 1] = T[1, 1, 3] = -.25
        T[1, 1, 0] = T[1, 0, 1] = .1
        kw.update(Ea=E, Na=Na, Tba=T, mulst=[.2, -.3], tlst=[.8, .9], dband=6.)
        if b == 'mb':
            return qmeq.BuilderManyBody(**kw)
        V = np.zeros((1, 4, 4), complex)
        V[0, 1, 2] = V[0, 2, 1] = .2
        return qmeq.BuilderManyBodyElPh(Vbbp=V, tlst_ph=[.7], dband_ph={0: [1e-2, 5.]}, **kw)
    kw.update(nsingle=n, indexing=None if q['ix'] == 'none' else q['ix'],
              symmetry=None if q['sym'] == 'none' else q['sym'])
    h, t = {(0, 0): .1, (1, 1): .1}, {(0, 0): .3, (1, 1): .3}
    if n == 3:
        h, t = {(0, 0): .1, (1, 1): .3, (2, 2): -.2, (0, 1): .1}, {(0, 0): .3, (1, 1): .3, (1, 2): .2, (0, 2): .1}
    mu, temp, v = {0: .2, 1: .2}, {0: .8, 1: .8}, {(0, 0, 0): .2, (0, 1, 1): .2}
    if q['sym'] == 'spin':
        h, t, v = {(0, 0): .1}, {(0, 0): .3}, {(0, 0, 0): .2}
        mu, temp = {0: .2}, {0: .8}
        nl = 2
    kw.update(hsingle=h, coulomb={(0, 1, 1, 0): 1.} if q['sym'] != 'spin' else {}, nleads=nl, tleads=t, mulst=mu,
              tlst=temp, dband=6.)
    if b == 'base':
        return qmeq.Builder(**kw)
    return qmeq.BuilderElPh(nbaths=1, velph=v, tlst_ph=[.7], dband_ph={0: [1e-2, 5.]}, itype_ph=q['itypeph'], **kw)


def state(b, s):
    k = s.kerntype
    return dict(kern=k, itype=s.itype, mfree=bool(s.mfreeq), itypeph=s.itype_ph if b in ('elph', 'mbelph') else 0,
                ix=s.indexing, sym=('none' if b in ('mb', 'mbelph') else s.si.symmetry or 'none'))


def solved(b, s, q):
    """What a solve gives; the two-dimensional approach runs a single iteration."""
    kw = dict(niter=1) if '2vN' in q['kern'] else {}
    if b in ('mb', 'mbelph'):
        kw['qdq'] = False
    if q['mfree']:
        s.phi0_init = None
    s.solve(**kw)
    return [np.array(s.Ea), np.array(s.phi0), np.array(s.current), np.array(s.energy_current)]


def run(c, ctx):
    fail, n, solves = [], 0, c['solves']
    for r in c['rows']:
        b, frm, to = r['b'], r['from'], r['to']
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if r['op'] == 'new':
                s = construct(b, r['n'], frm)
            else:
                s = construct(b, r['n'], frm)
                start = state(b, s)
                out.truncate(0)
                out.seek(0)
                a = r['arg']
                setattr(s, r['op'], asked(b, a) if r['op'] == 'kerntype' else a)
        warned = 'WARNING' in out.getvalue()
        got = state(b, s)
        what = '%s %s %s=%r from %s' % (b, 'n=%d' % r['n'], r['op'], r['arg'], frm)
        n += 2
        if r['op'] != 'new' and start != frm:
            fail.append('%s: the supported options were replaced by %s at construction' % (what, start))
        elif got != to:
            fail.append('%s: options are %s, expected %s' % (what, got, to))
        elif warned != r['warned']:
            fail.append('%s: %s' % (what, 'warning without a reason: ' + out.getvalue() if warned else
                                    'no warning although the request was replaced by %s' % to))
        elif to['kern'].startswith('class') and not isinstance(s.appr, classes(b in ('elph', 'mbelph'))[to['kern']]):
            fail.append('%s: the custom class is not used' % what)
        if fail:
            break
        change = r['op'] == 'new' or to != frm
        if change and (solves > 0 or to['kern'].startswith('class')) and not (r['op'] == 'new' and b == 'base' and
                                                                             frm['sym'] == 'spin' and to['sym'] == 'none'):
            solves -= 1
            with contextlib.redirect_stdout(out):
                d = construct(b, r['n'], to)
                x, y = solved(b, s, to), solved(b, d, to)
            n += 4
            if to['kern'].startswith('class') and getattr(s.appr, 'seen', None) != to['kern']:
                fail.append('%s: the solve does not go through the custom class' % what)
            tol = 1e-5 if to['mfree'] else 1e-9
            for name, p, q in zip(('Ea', 'phi0', 'current', 'energy_current'), x, y):
                if p.shape != q.shape or not np.isfinite(p).all() or abs(p - q).max() > tol:
                    fail.append('%s: %s is %s, directly constructed %s' % (what, name, p, q))
            if fail:
                break
    return {'fail': fail, 'n': n}
