"""C02: indices of density-matrix elements after every history of removals and restrictions of Indexing.tla."""
from checks import c01
from harness import labels

PROPERTY = 'C02'
ASSUMPTIONS = ['up to 6 single-particle states; all removal and restriction sets for up to 2 (quick) or 3 (thorough)',
               'with total-spin indexing restrictions keep whole multiplets']
TIME = {'quick': 300, 'thorough': 2400}
LAYOUT = {'StateIndexingPauli': 'Pauli', 'StateIndexingDM': 'DM', 'StateIndexingDMc': 'DMc'}


def cases(tier, rng):
    seed = int(rng.integers(1, 10 ** 6))
    if tier == 'quick':
        ex, rd = [([1, 2], 2)], [([3, 4], 4, 25), ([5], 3, 4), ([6], 3, 2)]
    else:
        ex, rd = [([1, 2], 2), ([3], 2)], [([3, 4], 5, 150), ([5], 4, 30), ([6], 4, 20)]
    out = []
    hist = labels.histories(ex, rd, seed)
    small = [h for h in hist if h['n'] < 5]
    hist = (c01.sample(small, 600 if tier == 'quick' else 6000, rng)
            + c01.sample([h for h in hist if h['n'] == 5], 40 if tier == 'quick' else 600, rng)
            + c01.sample([h for h in hist if h['n'] == 6], 10 if tier == 'quick' else 200, rng))
    hist += [dict(n=n, ix=ix, ops=[]) for n in range(1, 7) for ix in ('Lin', 'charge', 'sz', 'ssq', 'unknown')]
    for h in hist:
        for cls in LAYOUT:
            out.append(dict(kind=cls, n=h['n'], ix=h['ix'], ops=h['ops']))
    return out


def run(c, ctx):
    import qmeq.indexing
    n, lay = c['n'], LAYOUT[c['kind']]
    si = getattr(qmeq.indexing, c['kind'])(n, c['ix'])
    events = [dict(op='new', arg=[], dm=[labels.dm_tables(si, n, lay)])]
    for o in c['ops']:
        labels.apply(si, n, o)
        events.append(dict(o, dm=[labels.dm_tables(si, n, lay)]))
    return {'fail': [], 'n': len(events), 'trace': dict(id=c['id'], n=n, ix=c['ix'], events=events)}


finish = c01.finish
