"""C06: every container form of a call builds the same system, spin symmetry equals spelling out both spins,
and the caller's containers are neither modified nor referenced."""
import copy

from checks import params

PROPERTY = 'C06'
ASSUMPTIONS = ['up to 3 single-particle states (4 with spin), 2 leads (4 with spin), 2 baths']
TIME = {'quick': 300, 'thorough': 2400}


def cases(tier, rng):
    return params.make_cases(tier, rng, 2500 if tier == 'quick' else 8000, 4)


def run(c, ctx):
    s, n, fail, held = None, 0, [], []
    for i, st in enumerate(c['steps']):
        ev, p, f = st['e'], st['p'], []
        if ev['op'] == 'new':
            cont = {params.NAME[k]: params.container(c['cf'], k, x['form'], x['entries'], c['scale'])
                    for k, x in ev['call'].items()}
            keep = copy.deepcopy(cont)
            s = params.construct(c, cont)
            held = [(k, cont[k], keep[k]) for k in cont]
        else:
            held += params.apply(s, c, ev)
        f += ['the container given for %s was modified: %s, was %s' % h for h in held if not params.equal(h[1], h[2])]
        f += params.stored(s, c, p)
        n += 1 + len(held)
        if ev['op'] == 'new':
            for h in held:
                params.spoil(h[1])
            f += ['(after the caller changed what he gave to the constructor) ' + x for x in params.stored(s, c, p)]
            held = []
        if i == len(c['steps']) - 1 or ev['op'] == 'new':
            q = params.behind(st)
            d = params.direct(c, q, st['removed'])
            f += params.fock_basis(s, d) + params.same_solve(s, d, c, q, 'solve')
            # the containers of the calls are not touched by later solves either
            f += ['the container given for %s was modified: %s, was %s' % h for h in held if not params.equal(h[1], h[2])]
            n += 2
        if f:
            fail.append('after step %d (%s): %s' % (i, ev['op'], '; '.join(f[:4])))
            break
    return {'fail': fail, 'n': n}
