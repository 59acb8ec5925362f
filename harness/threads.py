"""Solves the systems of a file repeatedly with the number of threads in the environment: threads.py in out."""
import json
import sys

import numpy as np

from harness import system


def one(c, repeat=40):
    s = system.build(c)
    out, spread = None, 0.
    for r in range(repeat):
        s.solve(qdq=(r == 0), rotateq=(r == 0))
        rho = system.fromarray(system.density_matrix(s))
        cur = np.array([s.current, s.energy_current, s.heat_current]).tolist()
        if out is None:
            out = dict(rho=rho, cur=cur)
        spread = max(spread, float(abs(np.array(rho) - np.array(out['rho'])).max()),
                     float(np.nanmax(abs(np.array(cur) - np.array(out['cur'])))))
    out['spread'] = spread
    return out


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    res = []
    for c in cases:
        try:
            res.append(one(c))
        except Exception as e:
            res.append('%s: %s' % (type(e).__name__, e))
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f)
