"""C01: label tables after every removal history of Indexing.tla, validated as traces by TLC."""
from harness import labels

PROPERTY = 'C01'
ASSUMPTIONS = ['up to 7 single-particle states; all removal sets for up to 2 (quick) or 3 (thorough) of them']
TIME = {'quick': 300, 'thorough': 2400}
RETAIN = False


def sample(lst, k, rng):
    return lst if len(lst) <= k else [lst[i] for i in sorted(rng.choice(len(lst), k, replace=False))]


def cases(tier, rng):
    seed = int(rng.integers(1, 10 ** 6))
    if tier == 'quick':
        ex, rd = [([1, 2], 2)], [([3, 4], 4, 25), ([5, 6], 4, 12), ([7], 2, 3)]
    else:
        ex, rd = [([1, 2], 2), ([3], 1)], [([3, 4], 5, 150), ([5, 6], 5, 60), ([7, 8], 3, 10)]
    out, cap = [], (700 if tier == 'quick' else 9000)
    for h in sample(labels.histories(ex, rd, seed), cap, rng):
        ops = [o for o in h['ops'] if o['op'] == 'remove']
        for cls in ['StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc']:
            out.append(dict(kind=cls, n=h['n'], ix=h['ix'], ops=ops))
    seen, uniq = set(), []
    for c in out:
        k = str(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    for n in range(1, 8):
        for ix in ('Lin', 'charge', 'sz', 'ssq', 'unknown'):
            for cls in ['StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc']:
                uniq.append(dict(kind=cls, n=n, ix=ix, ops=[]))
    return uniq


def run(c, ctx):
    import qmeq.indexing
    n = c['n']
    si = getattr(qmeq.indexing, c['kind'])(n, c['ix'])
    events = [dict(op='new', arg=[], labels=labels.label_tables(si, n))]
    for o in c['ops']:
        labels.apply(si, n, o)
        events.append(dict(o, labels=labels.label_tables(si, n)))
    return {'fail': [], 'n': len(events), 'trace': dict(id=c['id'], n=n, ix=c['ix'], events=events)}


def finish(results, ctx, info):
    by = {c['id']: c for c, r in results}
    bad = labels.judge('IndexingJudge', [r['trace'] for c, r in results if 'trace' in r])
    return [(by[f['id']], 'after step %d of the history: %s' % (f['step'] - 1, ', '.join(sorted(f['fails']))))
            for f in bad]
