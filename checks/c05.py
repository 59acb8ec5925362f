"""C05: stored and derived quantities after every step of the behaviours of Params.tla."""
from checks import params
from harness import fock

PROPERTY = 'C05'
ASSUMPTIONS = ['up to 3 single-particle states (4 with spin), 2 leads (4 with spin), 2 baths',
               'parameter values are multiples of a power of two, so that accumulated values are exact']
TIME = {'quick': 300, 'thorough': 2400}


def cases(tier, rng):
    return params.make_cases(tier, rng, 2500 if tier == 'quick' else 8000, 8 if tier == 'quick' else 10)


def prepare(cases, info):
    return fock.tables({c['nsingle'] for c in cases}, info)


def run(c, ctx):
    F, s, n, fail = ctx[c['nsingle']], None, 0, []
    for i, st in enumerate(c['steps']):
        ev, p, q = st['e'], st['p'], params.behind(st)
        if ev['op'] == 'new':
            kw = {params.NAME[f]: params.container(c['cf'], f, x['form'], x['entries'], c['scale'])
                  for f, x in ev['call'].items()}
            s = params.construct(c, kw)
        else:
            params.apply(s, c, ev)
        f = params.stored(s, c, p) + params.against_tables(s, F, c, q)
        n += 2
        if ev['op'] in ('solve', 'qd', 'unrotated', 'keep') or i == len(c['steps']) - 1:
            d = params.direct(c, q, st['removed'])
            f += params.fock_basis(s, d)
            f += params.same_solve(s, d, c, q, ev['op'] if ev['op'] in ('qd', 'unrotated', 'keep') else 'solve')
            n += 2
        if f:
            fail.append('after step %d (%s): %s' % (i, ev['op'], '; '.join(f[:4])))
            break
    return {'fail': fail, 'n': n}
