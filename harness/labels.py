"""Histories of the Indexing.tla machine, replayed on the indexing classes, and the tables they report."""
import json
from concurrent.futures import ThreadPoolExecutor

from . import tlc

GEN = '''SPECIFICATION Spec
CONSTANTS Ns = {%s}
Ixs = {"Lin", "charge", "sz", "ssq", "unknown"}
Depth = %d
Exhaustive = %s
INVARIANT Sound
%s
CHECK_DEADLOCK FALSE
'''


def histories(exhaustive, random, seed):
    """exhaustive: [(numbers of orbitals, depth)] all configurations; random: [(numbers, depth, count)]."""
    out = []
    jobs = [(dict(cfg=GEN % (', '.join(map(str, ns)), d, 'TRUE', 'VIEW View'))) for ns, d in exhaustive]
    jobs += [(dict(cfg=GEN % (', '.join(map(str, ns)), d, 'FALSE', ''),
                   args=['-simulate', 'num=%d' % k, '-depth', str(d + 1), '-seed', str(seed + i)]))
             for i, (ns, d, k) in enumerate(random)]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda kw: tlc.run('IndexingGen', outputs=['histories.ndjson'], timeout=800, **kw), jobs):
            out += r.data['histories.ndjson']
    return out


def occupation(n, code):
    return [(code >> (n - 1 - k)) & 1 for k in range(n)]


def code_of(occ):
    return int(''.join(str(int(x)) for x in occ), 2)


def label_tables(si, n):
    """What the public interface says about the labels."""
    inds = []
    for c in range(2 ** n):
        b = si.get_ind(occupation(n, c))
        inds.append(-1 if b is None else int(b))
    spins = si.indexing in ('sz', 'ssq')
    szs, ssqs = [], []
    for q in range(n + 1):
        if spins:
            for k, lst in enumerate(si.szlst[q]):
                sz = 2 * k - (len(si.szlst[q]) - 1)
                szs.append([q, sz, [int(b) for b in si.get_lst(charge=q, sz=sz)]])
                if si.indexing == 'ssq':
                    for m in range(len(si.ssqlst[q][k])):
                        s = abs(sz) + 2 * m
                        ssqs.append([q, sz, s, [int(b) for b in si.get_lst(charge=q, sz=sz, ssq=s)]])
    plain = all([int(x) for x in si.get_state(c, linq=True)] == occupation(n, c)
                and si.get_ind(occupation(n, c), linq=True) == c
                and si.get_state(c, linq=True, strq=True) == ''.join(map(str, occupation(n, c)))
                for c in range(2 ** n))
    plain = plain and all(si.get_state(b, strq=True) == ''.join(map(str, si.get_state(b)))
                          for b in range(int(si.nmany)))
    return dict(indexing=str(si.indexing), nmany=int(si.nmany),
                states=[code_of(si.get_state(b)) for b in range(int(si.nmany))],
                inds=inds, charges=[[q, [int(b) for b in si.get_lst(charge=q)]] for q in range(si.ncharge)],
                szs=szs, ssqs=ssqs, plain=plain,
                qn=[[int(x) for x in k] + [int(v)] for k, v in si.qn_ind.items()],
                qnrev=[[int(x) for x in v] + [int(k)] for k, v in si.ind_qn.items()])


def dm_tables(si, n, layout):
    """Density-matrix indices of the retained states."""
    nmany = int(si.nmany)
    codes = [code_of(si.get_state(b)) for b in range(nmany)]
    half = n // 2
    qn = []
    for b in range(nmany):
        occ = occupation(n, codes[b])
        q = [sum(occ)]
        if si.indexing in ('sz', 'ssq'):
            q.append(sum(occ[:half]) - sum(occ[half:]))
        if si.indexing == 'ssq':
            q += [int(x) for x in si.ind_qn[b][2:]]
        qn.append(q)
    kept = [int(b) for q in si.statesdm for b in q]
    el, first = [], []
    for b in kept:
        for bp in kept:
            q = qn[b][0]
            if q == qn[bp][0] and (layout != 'Pauli' or b == bp):
                el.append([b, bp, int(si.get_ind_dm0(b, bp, q, maptype=1)),
                           bool(si.get_ind_dm0(b, bp, q, maptype=2)),
                           bool(si.get_ind_dm0(b, bp, q, maptype=3)) if layout == 'DM' else True])
            if layout != 'Pauli' and q == qn[bp][0] + 1:
                first.append([b, bp, int(si.get_ind_dm1(b, bp, q - 1))])
    d = dict(layout=layout, codes=codes, qn=qn, kept=kept, el=el, first=first, npauli=int(si.npauli))
    if layout != 'Pauli':
        d.update(ndm0=int(si.ndm0), ndm0r=int(si.ndm0r), ndm1=int(si.ndm1),
                 ind=[[int(k), int(v[0]), int(v[1])] for k, v in si.inddm0.items()])
    else:
        d.update(ndm0=0, ndm0r=0, ndm1=0, ind=[])
    return d


def apply(si, n, ev):
    if ev['op'] == 'remove':
        si.remove_fock_states([int(x) for x in ev['arg']])
        return
    if ev['op'] == 'all':
        si.set_statesdm(si.chargelst)
        return
    lst = [[] for _ in range(si.ncharge)]
    if si.indexing == 'ssq':
        want = {tuple(x) for x in ev['arg']}
        for b in range(si.nmany):
            q = si.ind_qn[b]
            if (q[0], q[2], q[3]) in want:
                lst[q[0]].append(b)
    else:
        for c in ev['arg']:
            occ = occupation(n, c)
            lst[sum(occ)].append(si.get_ind(occ))
    si.set_statesdm(lst)


def judge(module, rows, jobs=6, timeout=800):
    """Splits recorded traces over several TLC processes; returns the failure rows."""
    parts = [rows[i::jobs] for i in range(jobs) if rows[i::jobs]]
    out = []
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda p: tlc.run(module, inputs={'traces.ndjson': p}, outputs=['fails.ndjson'],
                                          timeout=timeout), parts):
            out += r.data['fails.ndjson']
    return out
