from common import *
import numpy as np
import elphmod
import elphmod.bravais as b

def run(c):
    rng = c.rng
    c.explore('PlanarDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NMAX = %d\nS = %d\n'
        'INVARIANTS WindowSuffices Periodic Moves Covariant Bounded\n' % (c.q(3, 5), c.q(2, 3)))
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(key='%s-%s' % (kind, key), kind=kind, exc='', got=[], **kw)
        ok, v = call(work)
        if ok == 'ok':
            r.update(v)
        else:
            r['exc'] = v
        recs.append(r)
    def offset(s, nk):
        if rng.random() < 0.4:
            return [0, 0]
        m = rng.choice((s, s * nk, 2 * s * nk))
        return [rng.randint(-m, m), rng.randint(-m, m)]
    for i in range(c.q(700, 6000)):
        angle = rng.choice((60, 90, 120))
        nk = rng.choice((1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 12, 13))
        s = rng.choice((1, 1, 2, 4, 6))
        d = offset(s, nk)
        w = rng.choice((0, nk * s, 3 * nk * s))
        if s == 1 or rng.random() < 0.5:
            k = [s * rng.randint(0, nk - 1) + rng.choice((0, 0, w, -w)) for _ in 'xy']
        else:
            k = [rng.randint(-w, w + nk * s) for _ in 'xy']
        kk = [x // s if x % s == 0 and rng.random() < 0.5 else x / s for x in k]
        dd = [x // s if x % s == 0 and rng.random() < 0.5 else x / s for x in d]
        kw = dict(epsilon=1e-6) if s == 6 or rng.random() < 0.1 else {}
        if d != [0, 0] or rng.random() < 0.3:
            kw.update(dk1=dd[0], dk2=dd[1])
        rec('voronoi', i, lambda: dict(got=sorted(ints([list(p) for p in
            b.to_Voronoi(*kk, nk, angle=angle, **kw)], s))), angle=angle, nk=nk, s=s, k=k, d=d)
    for i in range(c.q(60, 300)):
        angle = rng.choice((60, 90, 120))
        k = [rng.randint(-30, 30), rng.randint(-30, 30)]
        rec('distance', i, lambda: dict(got=ints(b.squared_distance(*k, angle=angle))), angle=angle, k=k)
    for i in range(c.q(60, 400)):
        angle = rng.choice((60, 90, 120))
        nk = rng.randint(1, 7)
        s = rng.choice((1, 1, 2, 4, 6))
        d = offset(s, nk)
        def work():
            irvec, ndegen, wslen = b.wigner_2d(nk, angle, d[0] / s, d[1] / s, epsilon=1e-6)
            return dict(got=[[*map(int, p), int(n), ints(l ** 2)] for p, n, l in zip(irvec, ndegen, wslen)])
        rec('wigner', i, work, angle=angle, nk=nk, s=s, d=d)
    for i in range(c.q(60, 400)):
        angle = rng.choice((60, 90, 120))
        nk = rng.choice((1, 2, 4))
        sign = rng.choice((-1, 1))
        u = nk * nk * 12
        data = np.zeros((nk, nk))
        for _ in range(rng.randint(1, nk * nk + 2)):
            data[rng.randrange(nk), rng.randrange(nk)] = u * rng.randint(-20, 20)
        pts = [(4 * rng.randint(-2 * nk, 2 * nk), 4 * rng.randint(-2 * nk, 2 * nk)) for _ in range(4)]
        if nk < 4:
            pts += [(nk * rng.randint(-9, 9), nk * rng.randint(-9, 9)) for _ in range(4)]
        def work():
            dig = digest(data)
            D = data + 0j if rng.random() < 0.3 else data
            if rng.random() < 0.2: # several functions at once
                other = data * 0
                other[rng.choice((rng.randrange(nk), slice(None))), rng.choice((rng.randrange(nk), slice(None)))] = u
                which = rng.randrange(2)
                coef = b.Fourier_interpolation(np.dstack([data, other][::1 - 2 * which]), angle=angle, sign=sign, function=False)
                coef = {p: x[which] for p, x in coef.items() if abs(x[which]) > 1e-6}
            else:
                coef = b.Fourier_interpolation(D, angle=angle, sign=sign, function=False)
            f = b.Fourier_interpolation(D, angle=angle, sign=sign)
            if digest(data) != dig:
                raise RuntimeError('argument modified')
            vals = f(np.array([x for x, y in pts]) / 4, np.array([y for x, y in pts]) / 4)
            return dict(coef=[[*map(int, p), *ints(x)] for p, x in coef.items()],
                values=[[x, y, ints(z)] for (x, y), z in zip(pts, vals)])
        rec('fourier', i, work, angle=angle, nk=nk, sign=sign, data=ints(data.ravel()), coef=[], values=[])
    c.judge('PlanarTrace', recs)
