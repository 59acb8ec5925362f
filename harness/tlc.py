"""Runs TLC on the specification modules in /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import scratch

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

def on_result(r):
    """Replaced by the runner to count states."""


class TLCError(Exception):
    pass


class Result(object):
    def __init__(self, out, rc):
        out = "\n".join(x for x in out.split("\n") if not re.match(r"(Parsing|Semantic|Linting|Running|Starting|Warning)", x))
        self.out, self.rc = out, rc
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        if not m:
            m = re.findall(r'number of states generated: ([\d,]+)', out, re.I)
            if m:
                self.generated = self.distinct = int(m[-1].replace(',', ''))
        self.violated = re.findall(r'Invariant (\S+) is violated|Temporal properties were violated|'
                                   r'Assumption .* is false|Action property (\S+) is violated', out)
        self.ok = rc == 0


def run(module, cfg=None, inputs=None, outputs=(), env=None, args=(), workers=1, timeout=600, heap='3g', check=True):
    """Runs a module in a scratch directory.

    inputs: {file name: json value} put beside the module, outputs: file names read back as JSON lines.
    check: raise when TLC does not end with success."""
    d = tempfile.mkdtemp(prefix='tlc', dir=scratch.workdir())
    for f in os.listdir(SPEC):
        if f.endswith('.tla') or f.endswith('.cfg'):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, value in (inputs or {}).items():
        with open(os.path.join(d, name), 'w') as f:
            if name.endswith('.ndjson'):
                for v in value:
                    f.write(json.dumps(v) + '\n')
            else:
                json.dump(value, f)
    if isinstance(cfg, str) and '\n' in cfg:
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
        cfg = 'run.cfg'
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC',
           '-metadir', os.path.join(d, 'meta'), '-workers', str(workers),
           '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise TLCError('TLC timed out on %s' % module)
    res = Result(r.stdout, r.returncode)
    res.data = {}
    for name in outputs:
        p = os.path.join(d, name)
        res.data[name] = []
        if os.path.exists(p):
            with open(p) as f:
                if name.endswith('.ndjson'):
                    res.data[name] = [json.loads(x) for x in f if x.strip()]
                else:
                    res.data[name] = json.load(f)
    shutil.rmtree(d, ignore_errors=True)
    on_result(res)
    if check and not res.ok:
        raise TLCError('TLC on %s ended with %d:\n%s' % (module, res.rc, res.out[-1800:]))
    return res
