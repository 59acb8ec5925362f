"""mutate.py SEED COUNT WORKERS [FILE-PATTERN]: random small changes of the sources, each in a scratch copy under /tmp/mut;
those that build and pass the tests go to the quick checks that concern the file.  Results in /tmp/mut/log.jsonl."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading

import numpy as np

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', CC='gcc')
WHICH = [('elph/', 'C13 C10 C11 C18'), ('specfunc_elph', 'C13 C18'), ('c_lapack', 'C10 C07'), ('c_kernel_handler', 'C07 C11 C10 C13'),
         ('kernel_handler', 'C07 C11 C10 C13'), ('RTD', 'C15 C10 C11'), ('neumann2', 'C16 C09 C19'), ('lindblad', 'C07 C10 C08 C18'),
         ('aprclass', 'C09 C10 C16 C12 C07 C15'), ('approach/base', 'C07 C08 C10 C11'), ('approach/__init__', 'C12'),
         ('baths', 'C05 C04 C06 C13 C09'), ('leadstun', 'C05 C04 C06 C09'), ('qdot', 'C03 C05 C17 C09 C04'), ('indexing', 'C01 C02 C14 C17 C09'),
         ('various', 'C14 C17 C20'), ('builder_elph', 'C13 C12 C06 C20 C09'), ('builder', 'C12 C09 C06 C20 C11 C14'), ('specfunc', 'C07 C15 C16 C10')]
SWAPS = [('b', 'bp'), ('c', 'cp'), ('a', 'ap'), ('bcharge', 'ccharge'), ('acharge', 'bcharge'), ('ba', 'bpa'), ('cb', 'cbp'),
         ('l', 'l1'), ('mu', 'Tk'), ('i', 'j'), ('m', 'n'), ('k', 'l'), ('c1', 'd1'), ('b1', 'a1'), ('aap', 'bbp'), ('ccp', 'bbp'),
         ('fp', 'fm'), ('real', 'imag'), ('dmin', 'dmax'), ('Ea', 'Eb'), ('E1', 'E2'), ('charge', 'charge+1')]
lock = threading.Lock()


def code_lines(text):
    out, quoted = [], None
    for i, line in enumerate(text.split('\n')):
        s = line.strip()
        if quoted:
            if quoted in s:
                quoted = None
            continue
        for q in ('"""', "'''"):
            if s.startswith((q, 'r' + q, '"' + q)) or (q in s and s.count(q) == 1):
                if s.count(q) == 1 or s.count(q) == 3 and s.startswith('"' + q):
                    quoted = q if s.count(q) == 1 else None
                break
        else:
            if s and not s.startswith(('#', 'import', 'from', 'cimport', 'class', 'def ', 'cdef class', '@', 'print', 'raise', 'cpdef', ')')):
                out.append(i)
    return out


def options(line):
    code = re.split(r'\s#', line)[0]
    out = []

    def sub(a, b, new):
        out.append(line[:a] + new + line[b:])
    if re.match(r'\s*(cdef|ctypedef)\b', code):
        return out
    for m in re.finditer(r'(?<![\w\'"*/=<>!+\-(\[,])\s*([+\-])\s*(?=[\w(])(?!=)', code):
        sub(m.start(1), m.end(1), '-' if m.group(1) == '+' else '+')
    for m in re.finditer(r'(?<=[=(,\[]) ?-(?=\w)', code):
        sub(m.start(), m.end(), '')
    for m in re.finditer(r'([+\-])=', code):
        sub(m.start(1), m.end(1), '-' if m.group(1) == '+' else '+')
        sub(m.start(1), m.end(), '=')
    for a, b in (('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('==', '!='), ('!=', '=='), (' and ', ' or '), (' or ', ' and '),
                 ('True', 'False'), ('False', 'True'), ('.conjugate()', ''), ('np.conjugate', ''), (' not ', ' '), (' is not ', ' is '), ('.T', ''),
                 ('min', 'max'), ('max', 'min'), ('copy()', 'view()'), ('.conj()', '')):
        for m in re.finditer(re.escape(a), code):
            sub(m.start(), m.end(), b)
    for m in re.finditer(r'(?<![\w.])(\d)(?![\w.])', code):
        d = int(m.group(1))
        for x in {d + 1, d - 1} - {-1}:
            sub(m.start(1), m.end(1), str(x))
    for x, y in SWAPS:
        for p, q in ((x, y), (y, x)):
            for m in re.finditer(r'(?<![\w.\'"])%s(?![\w(\'"])' % re.escape(p), code):
                if not re.match(r'\s*for\b', code):
                    sub(m.start(), m.end(), q)
    for m in re.finditer(r'\((\w+), (\w+)([,)])', code):
        sub(m.start(), m.end(), '(%s, %s%s' % (m.group(2), m.group(1), m.group(3)))
    if re.match(r'\s*[\w.\[\], :]+\s*[+\-*]?=[^=]', code) or re.match(r'\s*[\w.]+\(.*\)\s*$', code):
        ind = re.match(r'\s*', code).group()
        if code.count('(') == code.count(')') and code.count('[') == code.count(']'):
            out += [ind + 'pass'] * 2
    return [x for x in out if x != line]


def worker(k, todo, head):
    d = '/tmp/mut/w%d' % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    os.makedirs(d + '/b')
    for f in ('setup.py', 'README.rst', 'qmeq'):
        os.symlink(d + '/repo/' + f, d + '/b/' + f)
    hashes = d + '/repo/build/vp-hashes.json'
    keep = open(hashes).read()
    while True:
        with lock:
            if not todo:
                break
            m = todo.pop()
        path = d + '/repo/' + m['file']
        text = open(path).read()
        lines = text.split('\n')
        lines[m['line']] = m['new']
        so = None
        try:
            with open(path, 'w') as f:
                f.write('\n'.join(lines))
            env = dict(ENV, PYTHONPATH=d + '/repo')
            m['status'] = None
            if path.endswith('.pyx'):
                so = [path[:-4] + x for x in os.listdir(os.path.dirname(path)) and ('.c', '.cpython-312-x86_64-linux-gnu.so')]
                saved = [(p, open(p, 'rb').read(), os.stat(p)) for p in so]
                r = subprocess.run([PY, 'setup.py', 'build', '--build-base', d + '/repo/build', 'build_ext', '--inplace', '--cython', '-j2'],
                                   cwd=d + '/b', env=ENV, capture_output=True, timeout=600)
                if r.returncode or open(so[1], 'rb').read() == saved[1][1]:
                    m['status'] = 'build'
                else:
                    h = json.loads(keep)
                    h['pyx'][m['file']] = hashlib.sha256(open(path, 'rb').read()).hexdigest()
                    with open(hashes, 'w') as f:
                        json.dump(h, f)
            if m['status'] is None:
                try:
                    r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'qmeq/tests'], cwd=d + '/repo', env=env,
                                       capture_output=True, timeout=100)
                    if r.returncode:
                        m['status'] = 'test'
                except subprocess.TimeoutExpired:
                    m['status'] = 'test'
            if m['status'] is None:
                m['status'], m['detail'] = 'SURVIVED', []
                for c in next(w for p, w in WHICH if p in m['file']).split():
                    try:
                        r = subprocess.run(['./check', c, 'quick'], cwd='/tmp/mut/verif', env=dict(ENV, VERIF_REPO=d + '/repo'),
                                           capture_output=True, text=True, timeout=600)
                    except subprocess.TimeoutExpired:
                        m['detail'].append(c + ' timeout')
                        continue
                    if r.returncode == 1:
                        m['status'] = 'caught ' + c
                        break
                    if r.returncode:
                        m['detail'].append('%s exit %d' % (c, r.returncode))
        except Exception as e:
            m['status'] = 'error %r' % e
        finally:
            with open(path, 'w') as f:
                f.write(text)
            if so:
                for p, b, st in saved:
                    with open(p, 'wb') as f:
                        f.write(b)
                    os.utime(p)
                with open(hashes, 'w') as f:
                    f.write(keep)
        with lock, open('/tmp/mut/log.jsonl', 'a') as f:
            f.write(json.dumps(m) + '\n')
    shutil.rmtree(d, ignore_errors=True)


def main():
    seed, count, workers = (int(x) for x in sys.argv[1:4])
    pattern = sys.argv[4] if len(sys.argv) > 4 else ''
    rng = np.random.default_rng(seed)
    shutil.rmtree('/tmp/mut/verif', ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/verif', '/tmp/mut/verif'], check=True)
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'qmeq/*.py', 'qmeq/*.pyx'], capture_output=True, text=True).stdout.split()
    pool = []
    for f in files:
        if 'tests' in f or f.endswith('__init__.py') and 'approach' not in f or not re.search(pattern, f) or not any(p in f for p, _ in WHICH):
            continue
        text = open('/repo/' + f).read()
        lines = text.split('\n')
        for i in code_lines(text):
            o = options(lines[i])
            if o:
                pool.append((f, i, lines[i], o))
    todo = []
    for j in rng.permutation(len(pool))[:count]:
        f, i, old, o = pool[j]
        todo.append(dict(file=f, line=i, old=old, new=o[int(rng.integers(len(o)))]))
    print(len(pool), 'lines')
    ts = [threading.Thread(target=worker, args=(k, todo, None)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    main()
