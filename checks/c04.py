import itertools
from common import *
import numpy as np
import elphmod.bravais as b

def record(key, args, Rs):
    full = []
    for i, a in enumerate(args):
        full.append(list(a) if hasattr(a, '__len__')
            else [a if j == i else 0 for j in range(3)])
    r = dict(key=key, arg=full, exc='', N=0, M=[], B=[], cells=[], maps=[])
    def work():
        s = b.supercell(*args)
        maps = []
        for R in Rs:
            S, i = b.to_supercell(R, s)
            maps.append([list(map(int, R)), ints(S), int(i)])
        return ints(s[0]), ints(s[1]), ints(s[2]), [ints(c) for c in s[3]], maps
    ok, v = call(work)
    if ok == 'ok':
        r['N'], r['M'], r['B'], r['cells'], r['maps'] = v
    else:
        r['exc'] = v
    return r

def run(c):
    c.explore('SupercellGeometry', 'SPECIFICATION DSpec\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS Bound = 1\n'
        'INVARIANTS DesignComplete DesignDual DesignUnique\n',
        name='SupercellGeometry.design',
        timeout=800)

    recs = []
    box = [R for R in itertools.product(range(-2, 3), repeat=3)]
    def Rs(n):
        return [c.rng.choice(box) for _ in range(n)] + [
            tuple(c.rng.randint(-25, 25) for _ in range(3)) for _ in range(n)]
    # scalar shortcuts, including negative ones
    for n in itertools.product((-3, -2, -1, 1, 2, 3), repeat=3):
        if c.thorough or c.rng.random() < 0.4:
            recs.append(record('scalar%s' % (n,), n, Rs(6)))
    # mixtures of scalars and vectors, the default arguments
    recs.append(record('default', (1, 1, 1), box))
    # all in-plane cells with small entries
    for a, bb, cc, d in itertools.product(range(-3, 4), repeat=4):
        if a * d - bb * cc and (c.thorough or c.rng.random() < 0.12):
            e = c.rng.choice((1, 1, -1, 2))
            recs.append(record('plane(%d,%d;%d,%d;%d)' % (a, bb, cc, d, e),
                ((a, bb, 0), (cc, d, 0), e), Rs(5)))
    # random full matrices
    n = 0
    while n < c.q(300, 3000):
        M = [[c.rng.randint(-3, 3) for _ in range(3)] for _ in range(3)]
        if 0 < abs(round(np.linalg.det(M))) <= 40:
            n += 1
            recs.append(record('full%s' % (M,), [tuple(v) for v in M], Rs(5)))
    # large and strongly skewed supercells
    n = 0
    while n < c.q(25, 150):
        M = [[c.rng.randint(-9, 9) for _ in range(3)] for _ in range(3)]
        if 40 < abs(round(np.linalg.det(M))) <= c.q(150, 300):
            n += 1
            recs.append(record('large%s' % (M,), [tuple(v) for v in M], Rs(5)))
    for M in [((1, -1, 0), (1, 1, 0), (0, 0, 1)), ((0, 1, 0), (1, 0, 0), 1),
            ((-1, 0, 0), (0, -1, 0), (0, 0, -1)), ((3, 4, 0), (-2, -3, 0), 1)]:
        recs.append(record('fixed%s' % (M,), M, box))
    c.judge('SupercellGeometryTrace', recs)
