import contextlib, io, math
from common import *
import numpy as np
import elphmod
b = elphmod.bravais
LABELS = {1: 'MRX', 2: 'XLWUK', 3: 'HPN', -3: 'HPN', 4: 'AMLKH', 6: 'XMZRA', 7: 'XMZRA', 8: 'XYZSTUR', 9: 'YyZTtSR',
    -9: 'YyZTtSR', 12: 'BYZDCAE', -12: 'BYZDCAE'}

def run(c):
    rng = c.rng
    c.explore('PathsDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT MAX = %d\n'
        'INVARIANTS Unique Settings\n' % c.q(6, 9))
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(dict(key='%s-%s' % (kind, key), kind=kind, exc=''), **kw)
        ok, v = call(work)
        r.update(v if ok == 'ok' else dict(exc=v))
        recs.append(r)

    for i in range(c.q(300, 4000)):
        dim = rng.choice((2, 3, 3))
        n = rng.randint(2, 5)
        every = i < len(LABELS) # all special points of all lattices
        if every:
            dim = 3
        labelled = every or dim == 3 and rng.random() < 0.4
        ibrav = list(LABELS)[i] if every else rng.choice(list(LABELS)) if labelled else rng.choice((1, 8, 14))
        den = 24 if labelled else rng.choice((1, 2, 3, 4, 6))
        labels, points, arg = [], [], []
        for l in LABELS[ibrav] + 'G' if every else ' ' * n:
            p = [rng.randint(-den, den) for _ in range(dim)] if rng.random() < 0.8 else [0] * dim
            if points and rng.random() < 0.1:
                p = list(points[-1])
            if not every:
                l = rng.choice(LABELS[ibrav] + 'GG') if labelled and rng.random() < 0.7 else ''
            labels.append(l)
            points.append(p)
            arg.append(l or [x / den for x in p])
        move = rng.choice((0, 0, 0, 1, 2)) if not labelled or True else 0
        kw, how = {}, rng.randrange(3) if dim == 3 else 0
        while True:
            B = [[rng.randint(-1, 2) for _ in range(dim)] for _ in range(dim)]
            if round(abs(np.linalg.det(B))) > 0:
                break
        if how == 0:
            kw['recvec'] = np.array(B, float)
            if ibrav != 8 or rng.random() < 0.5:
                kw['ibrav'] = ibrav
        elif ibrav in (1, 8, 14) and how == 1: # orthogonal cell, inverse integers
            d = [rng.choice((1, 2, 1, 3)) for _ in range(3)]
            if ibrav == 1:
                d = d[:1] * 3
            B = np.diag(d).tolist()
            kw.update(ibrav=ibrav, a=1 / d[0], b=1 / d[1], c=1 / d[2])
        elif ibrav in (1, 8):
            B = np.eye(3, dtype=int).tolist()
            if ibrav != 8 or rng.random() < 0.5:
                kw['ibrav'] = ibrav
        else:
            kw.update(recvec=[np.array(x, float) for x in B], ibrav=ibrav)
        N = rng.choice((1, 2, 3, 5, 8))
        if rng.random() < 0.05:
            N = 30
            kw.pop('N', None)
        qe = rng.random() < 0.3 and dim == 3 # input files need three coordinates
        mden = 2
        def work():
            k2 = dict(kw)
            if N != 30:
                k2['N'] = N
            if move:
                k2['moveG'] = move / mden
            if qe:
                k2['qe'] = True
            out = b.path(arg, **k2)
            k, x, corners = out[:3]
            corners = [int(t) for t in corners]
            steps = [max(1, t - s) for s, t in zip(corners, corners[1:])]
            steps += [t - 1 for t in steps if t > 1]
            unit = math.lcm(*steps)
            if unit * den * mden > 2e7:
                raise Skip()
            z = dict(k=ints(k / (2 * np.pi), den * mden * unit, tol=1e-3), corners=corners, unit=unit,
                x=[int(round(t * 1e6)) for t in x], qe=[])
            if qe:
                d = out[3]
                if d['ktyp'] != 'crystal_b' or d['nks'] != len(corners):
                    raise RuntimeError('wrong k_points card')
                z['qe'] = [dict(k=ints(q[:3], den * mden * unit, tol=1e-3), w=ints(q[3])) for q in d['k_points']]
            return z
        rec('path', i, work, points=points, labels=labels if labelled else [], ibrav=ibrav, den=den, b=[list(map(int, x)) for x in B],
            N=N, move=move, mden=mden, dim=dim)
        if recs[-1]['exc'].startswith('Skip'):
            recs.pop()

    for i in range(c.q(80, 600)):
        N = rng.choice((6, 12, 18, 24, 30, 36)) if rng.random() < 0.5 else rng.randint(2, 40)
        angle, straight, lift, mesh = rng.choice((60, 120)), rng.random() < 0.6, rng.random() < 0.5, rng.random() < 0.5
        indices = rng.random() < 0.85
        def work():
            kw = dict(N=N, mesh=mesh, angle=angle)
            if not straight:
                kw['straight'] = False
            if not lift:
                kw['lift_degen'] = False
            k, x, C = b.GMKG(corner_indices=True, **kw)
            if not indices:
                k2, x2 = b.GMKG(**kw)
                return dict(same=digest((k, x)) == digest((k2, x2)))
            C = [int(t) for t in C]
            unit = math.lcm(*[max(1, t - s) for s, t in zip(C, C[1:])])
            if unit > 1e5:
                raise Skip()
            return dict(k=ints(k / (2 * np.pi), 6 * unit, tol=1e-2), x=[int(round(t * 1e6)) for t in x], corners=C, unit=unit)
        rec('GMKG', i, work, N=N, angle=angle, straight=straight, mesh=mesh, indices=indices)
        if recs[-1]['exc'].startswith('Skip'):
            recs.pop()

    for i in range(c.q(60, 600)):
        n = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]
        flat = rng.random() < 0.5
        unit = math.lcm(*n)
        def work():
            m = b.mesh(*n, flat=True) if flat else b.mesh(*n)
            g = ints(m / (2 * np.pi), unit)
            return dict(shape=list(m.shape), got=ints(np.reshape(m, (-1, len(n))) / (2 * np.pi), unit))
        rec('mesh', i, work, n=n, flat=flat, unit=unit)
    for i in range(c.q(30, 200)):
        n = [rng.randint(1, 5) for _ in range(3)]
        w = rng.random() < 0.6
        unit = int(np.prod(n))
        def work():
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                b.kpoints(*n, weights=w)
            lines = s.getvalue().split('\n')
            return dict(total=int(lines[0]), got=[ints(list(map(float, l.split())), unit, tol=1e-4) for l in lines[1:] if l.split()])
        rec('kpoints', i, work, n=n, weights=w, unit=unit)
    for i in range(c.q(40, 300)):
        n = [rng.randint(1, 5) for _ in range(3)]
        unit = math.lcm(*[max(1, x - 1) for x in n])
        r0 = [rng.randint(-5, 5) for _ in range(3)]
        a = [[rng.randint(-5, 5) for _ in range(3)] for _ in range(3)]
        def work():
            r = elphmod.misc.real_space_grid(tuple(n), np.array(r0, float), np.array(a, float), shared_memory=rng.random() < 0.3)
            if r.shape != (*n, 3):
                raise RuntimeError('wrong shape')
            return dict(got=ints(np.reshape(r, (-1, 3)), unit))
        rec('grid', i, work, n=n, r0=r0, a=a, unit=unit)
    c.judge('PathsTrace', recs)

class Skip(Exception):
    pass
