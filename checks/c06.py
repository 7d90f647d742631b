from common import *
from couplings import *

def fixed(z):
    z = np.asarray(z)
    return ints(np.round(np.stack([z.real, z.imag], axis=-1) * 1e4))

def polar(rng, i):
    """Supercell with long-range coupling, dense and sparse."""
    r = dict(key='polar-%d' % i, exc='', lr=[], lr0=[], short=[], gamma=[], dense=[], sparse=[])
    def work():
        m = elph_model(rng, nat=rng.choice((1, 2)))
        while not (m.Rk == 0).all(axis=1).any() or m.ph.nat * m.el.size > 4:
            m = elph_model(rng, nat=rng.choice((1, 2)))
        m.data[...] = m.data.real / 8
        ph = m.ph
        ph.lr, ph.lr2d, ph.L, ph.perp, ph.Q = True, rng.random() < 0.3, None, False, None
        V = abs(np.linalg.det(ph.a)) ** (1 / 3)
        ph.alpha = (np.linalg.norm(ph.a[0]) / V) ** 2 * rng.uniform(0.3, 0.6)
        ph.eps = np.diag([rng.uniform(2, 4) for _ in range(3)])
        if ph.lr2d: # planes perpendicular to the third direction
            ph.a[0, 2] = ph.a[1, 2] = ph.a[2, 0] = ph.a[2, 1] = 0.0
            if abs(np.linalg.det(ph.a)) < 0.5:
                ph.a = np.diag([3.0, 4.0, 9.0])
        ph.Z = np.array([rng.uniform(-2, 2) for _ in range(9 * ph.nat)]).reshape((ph.nat, 3, 3))
        ph.prepare_long_range()
        N = [rng.randint(1, 2) for _ in range(3)]
        d = m.supercell(*N, shared_memory=rng.random() < 0.3)
        s = m.supercell(*N, sparse=True)
        q, k = [[rng.uniform(-3, 3) for _ in range(3)] for _ in 'qk']
        def short(q, k):
            return np.einsum('g,gxkab,k->xab', np.exp(1j * d.Rg @ q), d.data, np.exp(1j * d.Rk @ k))
        r['short'], r['gamma'] = fixed(short(q, k)), fixed(short([0, 0, 0], [0, 0, 0]).real)
        r['lr'], r['lr0'] = fixed(d.g_lr(*q)), fixed(d.g_lr().real)
        r['dense'] = fixed(d.g(*q, *k))
        r['sparse'] = fixed(np.array([x.toarray() for x in s.gs]))
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def run(c):
    rng = c.rng
    c.explore('CouplingOps', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n'
        'INVARIANTS WellFormed SymHermitian Commute Reciprocal\n' % c.q(2, 3))
    recs = []
    for i in range(c.q(120, 900)):
        m = elph_model(rng, nat=rng.choice((1, 1, 2)), shared=rng.random() < 0.3)
        M = dict(op='super', M=matrix(rng, 6 if m.data.size < 200 else 3),
            shared=rng.random() < 0.3)
        plan = [M]
        if i % 4 == 1:
            plan = [M, dict(op='std')]
        elif i % 4 == 2:
            plan = [dict(op='std'), dict(M, M=matrix(rng, 2)), dict(M, M=matrix(rng, 3))]
        elif i % 4 == 3:
            plan = [dict(M, op='sparse')]
        recs.append(crun('elph-%d' % i, m, plan, i))
    c.judge('CouplingTrace', recs, verdict='Agree', histories=True)
    c.judge('PolarTrace', [polar(rng, i) for i in range(c.q(16, 120))], verdict='OfPolar')
