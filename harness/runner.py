"""Runs one check: builds the code under test, prepares the cases from the specification, runs them
against the implementation in worker processes and writes the evidence.

A check is a module checks/<id>.py with
    PROPERTY, ASSUMPTIONS
    cases(tier, rng)        list of JSON-serialisable cases (plain data, replayable)
    prepare(cases, info)    optional: runs TLC, returns the context that every worker inherits;
                            adds to info['states'], info['transitions']
    run(case, ctx)          in a worker: returns {'fail': [...], 'n': conformance steps, 'skip': bool, ...}
    finish(results, ctx, info)  optional: checks over all results (trace validation by TLC);
                            returns [(case, message)]
"""
import importlib
import json
import os
import selectors
import signal
import sys
import time
import traceback

import numpy as np

from . import scratch, tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')


class Skip(Exception):
    """Raised by a case whose outcome the property does not determine."""


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    if isinstance(x, np.generic):
        return _jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    return x


def run_one(mod, case, ctx):
    try:
        out = mod.run(case, ctx)
    except Skip as e:
        out = {'skip': str(e)}
    except Exception:
        out = {'fail': ['exception: ' + traceback.format_exc()[-1800:]]}
    out.setdefault('fail', [])
    out.setdefault('n', 1)
    return out


class Worker(object):
    def __init__(self, mod, ctx):
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(c2p_r)
                os.close(p2c_w)
                # output of the code under test (warnings) is not part of the report
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                if not os.environ.get('VERIF_DEBUG'):
                    os.dup2(null, 2)
                rd, wr = os.fdopen(p2c_r, 'r'), os.fdopen(c2p_w, 'w')
                for line in rd:
                    if line == 'quit\n':
                        break
                    out = run_one(mod, json.loads(line), ctx)
                    wr.write(json.dumps(_jsonable(out)) + '\n')
                    wr.flush()
            finally:
                os._exit(0)
        os.close(c2p_w)
        os.close(p2c_r)
        self.pid, self.rd, self.wr = pid, c2p_r, os.fdopen(p2c_w, 'w')
        self.buf, self.item, self.started = b'', None, 0

    def give(self, idx, case):
        self.item, self.started, self.buf = idx, time.time(), b''
        self.wr.write(json.dumps(case) + '\n')
        self.wr.flush()

    def stop(self, kill=False):
        try:
            if kill:
                os.kill(self.pid, signal.SIGKILL)
            # later workers hold this pipe as well, so that closing it is not enough
            self.wr.write('quit\n')
            self.wr.close()
        except OSError:
            pass
        try:
            os.close(self.rd)
        except OSError:
            pass
        return os.waitpid(self.pid, 0)[1]


def pool(mod, cases, ctx, nworkers=8, case_timeout=150, deadline=None):
    """Results by case index; a worker that dies or hangs is a failure of its case."""
    results = [None] * len(cases)
    todo = list(range(len(cases)))[::-1]
    sel = selectors.DefaultSelector()
    workers = []

    def spawn():
        w = Worker(mod, ctx)
        workers.append(w)
        sel.register(w.rd, selectors.EVENT_READ, w)
        return w

    def feed(w):
        if todo and not (deadline and time.time() > deadline):
            i = todo.pop()
            w.give(i, cases[i])
        else:
            w.item = None

    for _ in range(min(nworkers, len(cases))):
        feed(spawn())
    while any(w.item is not None for w in workers):
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            data = os.read(w.rd, 1 << 16)
            if data:
                w.buf += data
                if w.buf.endswith(b'\n'):
                    results[w.item] = json.loads(w.buf)
                    feed(w)
                continue
            # end of file: the worker died
            sel.unregister(w.rd)
            workers.remove(w)
            status = w.stop()
            if w.item is not None:
                results[w.item] = {'fail': ['the process ended with status %d (signal %d) during the case'
                                            % (status, status & 127)], 'n': 1}
                if todo:
                    feed(spawn())
        now = time.time()
        for w in list(workers):
            if w.item is not None and now - w.started > case_timeout:
                sel.unregister(w.rd)
                workers.remove(w)
                w.stop(kill=True)
                results[w.item] = {'fail': ['no result within %d s' % case_timeout], 'n': 1}
                if todo:
                    feed(spawn())
    for w in workers:
        sel.unregister(w.rd)
        w.stop()
    return results


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2].strip())
    return out


def matched(findings, text):
    """A finding names its case as key=<...>; it suppresses only a failure that carries this key."""
    for f in findings:
        key = f.split(' ', 1)[0]
        if key.startswith('key=') and '[' + key + ']' in text:
            return f
    return None


def main(prop, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('checks.' + prop.lower())
    try:
        scratch.load()
    except scratch.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    info = {'states': 0, 'transitions': 0, 'tlc_runs': 0}
    tlc.on_result = lambda r: info.update(states=info['states'] + r.distinct,
                                          transitions=info['transitions'] + r.generated,
                                          tlc_runs=info['tlc_runs'] + 1)
    rng = np.random.default_rng([seed, int(prop[1:]), 0 if tier == 'quick' else 1])
    if replay:
        with open(replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = json.loads(json.dumps(_jsonable(mod.cases(tier, rng))))
    for i, c in enumerate(cases):
        c.setdefault('id', i)
    ctx = mod.prepare(cases, info) if hasattr(mod, 'prepare') else None
    limit = getattr(mod, 'TIME', {}).get(tier, 420 if tier == 'quick' else 3000)
    results = pool(mod, cases, ctx, deadline=t0 + limit)
    bad = []
    for c, r in zip(cases, results):
        if r is not None:
            bad += [(c, m) for m in r['fail'][:3]]
    if hasattr(mod, 'finish'):
        bad += mod.finish([(c, r) for c, r in zip(cases, results) if r is not None], ctx, info)
    done = [(c, r) for c, r in zip(cases, results) if r is not None]
    skipped = sum(1 for c, r in done if r.get('skip'))
    steps = sum(r['n'] for c, r in done if not r.get('skip'))
    if os.environ.get('VERIF_DUMP'):
        with open(os.environ['VERIF_DUMP'], 'w') as fh:
            json.dump([[c, r] for c, r in done], fh)
    findings = known_findings(prop)
    code, reported, seen = 0, 0, set()
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    for n, (c, m) in enumerate(bad):
        f = matched(findings, m)
        if f:
            if f not in seen:
                seen.add(f)
                print('KNOWN-FINDING: property=%s %s' % (prop, f))
            continue
        code = 1
        if reported < 8:
            path = os.path.join('evidence', 'replay', '%s-%d.json' % (prop, reported))
            with open(os.path.join(ROOT, path), 'w') as fh:
                json.dump({'property': prop, 'case': c, 'failure': m}, fh)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  ' + m[:1500].replace('\n', '\n  '))
        reported += 1
    if len(done) < len(cases):
        print('time limit: %d of %d cases run' % (len(done), len(cases)))
    if not replay:
        kinds = {}
        for c, r in done:
            k = str(c.get('kind', 'case'))
            e = kinds.setdefault(k, {'cases': 0, 'steps': 0, 'skipped': 0})
            e['cases'] += 1
            e['steps'] += 0 if r.get('skip') else r['n']
            e['skipped'] += 1 if r.get('skip') else 0
        pick = [c for c, r in done if not r.get('skip')]
        pick = [pick[i] for i in sorted(set(int(x) for x in np.linspace(0, len(pick) - 1, 3)))] if pick else []
        coverage = {'states': info['states'], 'transitions': info['transitions'],
                    'traces_validated_against_impl': len(done) - skipped,
                    'comparisons': steps, 'cases_undetermined': skipped, 'tlc_runs': info['tlc_runs'],
                    'by_kind': kinds, 'samples': pick}
        coverage.update(info.get('extra', {}))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
              'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
              'violations': reported}
        with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s %s: %d TLC states, %d cases (%d undetermined), %d comparisons, %d violations, %.1f s'
              % (prop, tier, info['states'], len(done), skipped, steps, reported, time.time() - t0))
    return code
