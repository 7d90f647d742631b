from common import *
from lattices import *
import elphmod
import elphmod.bravais as b

def run(c):
    rng = c.rng
    c.explore('WignerSeitzDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS RangeSuffices Reverse Periodic\n')
    def mesh():
        return rng.choice(([1, 1, 1], [2, 1, 1], [1, 3, 1], [2, 2, 1], [3, 3, 1],
            [2, 3, 1], [4, 2, 1], [1, 2, 2], [2, 2, 2], [4, 4, 1], [3, 2, 2],
            [5, 1, 2], [6, 1, 1]))
    recs = []
    for i in range(c.q(80, 800)):
        name = rng.choice(sorted(LATTICES))
        at = LATTICES[name]
        nr = mesh()
        far = rng.random() < 0.25
        tau = sites(rng, at, rng.randint(1, 3), far)
        tau2 = sites(rng, at, rng.randint(1, 3), far) if rng.random() < 0.5 else None
        sgn = rng.choice((1, -1))
        kw = dict(nsc=3) if rng.random() < (0.5 if far else 0.15) else {}
        r = dict(key='wigner-%s-%d' % (name, i), exc='', at=at, nr=nr, tau=tau,
            tau2=tau2 or tau, nsc=kw.get('nsc', 2), sgn=sgn, rows=[], deg=[], len2=[])
        def work():
            fl = lambda x: np.array(x, dtype=float)
            R, d, l = b.wigner(*nr, fl(at), fl(tau),
                None if tau2 is None else fl(tau2), sgn=sgn, **kw)
            return ints(R), ints(d), ints(l ** 2)
        ok, v = call(work)
        if ok == 'ok':
            r['rows'], r['deg'], r['len2'] = v
        else:
            r['exc'] = v
        recs.append(r)
    c.judge('WignerSeitzTrace', recs)
    recs = []
    for i in range(c.q(45, 400)):
        name = rng.choice(sorted(LATTICES))
        at = LATTICES[name]
        nr = mesh()
        n = rng.randint(1, 2)
        nc = rng.choice((1, 1, 3))
        tau = sites(rng, at, n)
        sgn = rng.choice((1, -1))
        div = rng.random() < 0.8
        cplx = rng.random() < 0.5
        data = np.zeros((n, n, *nr, nc, nc), dtype=complex)
        for _ in range(rng.randint(1, 25)):
            data[tuple(rng.randrange(k) for k in data.shape)] = 2520 * (
                rng.randint(-30, 30) + (1j * rng.randint(-30, 30) if cplx else 0))
        if not data.any():
            data[(0,) * 7] = 2520
        mesh_ = [list(map(int, k)) + ints(data[tuple(k)]) for k in
            zip(*np.nonzero(data))]
        if not cplx:
            data = data.real.copy()
        r = dict(key='model-%s-%d' % (name, i), exc='', at=at, nr=nr, tau=tau,
            nc=nc, sgn=sgn, div=div, mesh=mesh_, nsc=2, rows=[], raw=[])
        def work():
            d = data[..., 0, 0] if nc == 1 and rng.random() < 0.7 else data
            before = digest(d)
            R, const, l = b.short_range_model(d, np.array(at, dtype=float),
                np.array(tau, dtype=float), sgn=sgn, divide_ndegen=div)
            if digest(d) != before:
                raise RuntimeError('argument modified')
            const = const + 0j
            return ints(R), [[int(k[0]) + 1, int(k[1]), int(k[2])] + ints(const[k])
                for k in zip(*np.nonzero(abs(const) > 1e-9))]
        ok, v = call(work)
        if ok == 'ok':
            r['rows'], r['raw'] = v
        else:
            r['exc'] = v
        recs.append(r)
    c.judge('WignerSeitzTrace', recs, verdict='ModelVerdict')
