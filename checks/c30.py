"""Integrals over isolines on triangular meshes (2D tetrahedron method)."""
import numpy as np
from common import *
import elphmod

def mesh(rng, n, values):
    f = [[rng.choice(values) for _ in range(n)] for _ in range(n)]
    if rng.random() < 0.4: # with inversion, mirror or translation symmetry
        g = [r[:] for r in f]
        how = rng.randrange(3)
        for i in range(n):
            for j in range(n):
                f[i][j] = g[min(i, n - i)][min(j, n - j)] if how == 0 else \
                    g[i][0] if how == 1 else max(g[i][j], g[j][i])
    return f

def states(rng, i):
    n = rng.randint(1, 5)
    weighted = rng.random() < 0.5
    top, L = (4, 12) if weighted else (6, 60)
    shift = rng.choice((0, 0, -3))
    f = mesh(rng, n, range(shift, shift + top + 1))
    h = mesh(rng, n, range(-3, 4)) if weighted else []
    e = list(range(2 * shift - 1, 2 * (shift + top) + 2))
    kw = {}
    if rng.random() < 0.3:
        kw['minimum'] = rng.choice(e) / 2
    if rng.random() < 0.3:
        kw['maximum'] = rng.choice(e) / 2
    e = [x for x in e if kw.get('minimum', -99) <= x / 2 <= kw.get('maximum', 99)]
    rng.shuffle(e)
    r = dict(key='states-%d' % i, kind='states', exc='', f=f, h=h, L=L, e=e, v=[], inf=[])
    def work():
        if weighted:
            D = elphmod.dos.hexa2F(np.array(f, float), np.array(h, float), **kw)
        else:
            D = elphmod.dos.hexDOS(np.array(f, float), **kw)
        x = np.array(e) / 2
        v = D(x) if len(x) > 1 and rng.random() < 0.6 else np.array([float(D(y)) for y in x])
        r['inf'] = [bool(y == np.inf) for y in v]
        v = np.where(np.isinf(v), 0.0, v)
        # weighted: 1 / (2 L^2), two ends of 1 / (2 L), two sides, and half of ends
        r['v'] = ints(v * n ** 2 * (16 * L ** 3 if weighted else 4 * L ** 2), tol=1e-3)
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def crossings(rng, i):
    n = rng.randint(1, 5)
    x, y = mesh(rng, n, range(-4, 5)), mesh(rng, n, range(-4, 5))
    f = mesh(rng, n, range(-3, 4)) if rng.random() < 0.6 else [[1] * n] * n
    z = rng.randint(-3, 3)
    S, unit = 1024, 16384
    r = dict(key='crossings-%d' % i, kind='crossings', exc='', x=x, y=y, f=f, z=z, s=S,
        unit=unit, p=[], w=[])
    def work():
        a = [np.array(x, float), np.array(y, float)]
        if rng.random() < 0.5:
            a.append(np.array(f, float))
        else:
            r['f'] = [[1] * n] * n
        I = elphmod.dos.double_delta(*a)(float(z))
        for p, w in I.items():
            r['p'].append(ints(np.round(np.array(p) * S)))
            r['w'].append(ints(np.round(w * n ** 2 * unit)))
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def isoline(rng, i):
    n = rng.randint(2, 7)
    f = mesh(rng, n, range(-8, 9, 4))
    tie = rng.random() < 0.3
    e = rng.choice(range(-8, 9, 4) if tie else range(-7, 8, 2))
    S = 512
    r = dict(key='isoline-%d' % i, kind='isoline', exc='', f=f, e=e, s=S, tie=tie, c=[])
    def work():
        for c in elphmod.dos.isoline(np.array(f, float))(float(e)):
            r['c'].append(ints(np.round(np.asarray(c) * n * 2 * S)))
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def run(c):
    c.explore('TetrahedronDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS Top = %d\n L = %d\nINVARIANTS Counted Complete Positive\n'
        % c.q((4, 12), (6, 60)))
    seed = c.rng.random()
    records = []
    for f, quick, thorough in ((states, 200, 4000), (crossings, 250, 5000), (isoline, 150, 2500)):
        records += farm(f, c.q(quick, thorough), seed)
    c.judge('TetrahedronTrace', records, verdict='OfTetrahedron')
