from common import *
from couplings import *

def run(c):
    rng = c.rng
    recs = []
    def add(key, m, plan):
        recs.append(run_history(key, m, plan, len(recs)))
    def vec(n):
        return [rng.randint(-n, n) for _ in range(3)]
    for i in range(c.q(60, 400)):
        for name, m in (('el', el_model(rng, dup=rng.random() < 0.4)),
                ('ph', ph_model(rng, dup=rng.random() < 0.4)),
                ('elel', elel_model(rng, dup=rng.random() < 0.4))):
            plan = [dict(op='H', k4=vec(9)) for _ in range(2)]
            if rng.random() < 0.3:
                plan.append(dict(op='std'))
            if not m.data.imag.any():
                plan += [dict(op='H6', k4=vec(9))]
            if name == 'el':
                plan.append(dict(op='v', k4=vec(6)))
            N = rng.choice(([2], [4], [4, 1], [2, 4], [4, 2], [1, 2, 4], [2, 4, 1],
                [2, 1, 2], [4, 2, 1], [1, 4, 2]))
            if m.size <= 3 or len(N) < 3:
                plan.append(dict(op='mesh', N=N, list=rng.random() < 0.3))
            if len(set(map(tuple, m.R))) == len(m.R):
                for _ in range(2):
                    plan.append(dict(op='get', k4=ints(rng.choice(list(m.R)))
                        if rng.random() < 0.6 else vec(2)))
            add('%s-%d' % (name, i), m, plan)
    c.judge('ModelTrace', recs, verdict='Agree', histories=True)

    recs = []
    G = lambda: [rng.randint(-2, 2), rng.randint(-2, 2)]
    def sample_step(m, nel, nph, d=None, nk=None, small=False, transform=False):
        if nk is None:
            nk = rng.choice(([4], [2], [2, 2], [4, 1], [1, 4], [2, 4], [2, 1, 2],
                [1, 2, 2], [4, 2], [2, 2, 2]))
        d = len(nk)
        qs = [[rng.randint(-n, 2 * n) * (4 // n) for n in nk] + [0] * (3 - d)
            for _ in range(rng.randint(1, 3))]
        s = dict(op='sample', nk=nk, qs=qs, U=[], u=[], sq=False)
        if rng.random() < 0.7 or transform:
            nb = rng.randint(1, nel)
            s['U'] = [[[G() for _ in range(nb)] for _ in range(nel)]
                for _ in range(int(np.prod(nk)))]
            s['infer'] = rng.random() < 0.3
        if rng.random() < 0.6:
            nm = rng.randint(1, nph)
            s['u'] = [[[G() for _ in range(nm)] for _ in range(nph)] for _ in qs]
        if small and rng.random() < 0.5:
            s['sq'] = True
        if len(set(nk)) == 1:
            s['scalar'] = rng.random() < 0.5
        if transform:
            s['transform'] = True
        s['shared'] = rng.random() < 0.2
        return s
    for i in range(c.q(70, 500)):
        small = rng.random() < 0.4
        m = elph_model(rng, nat=1, dup=rng.random() < 0.3,
            shared=rng.random() < 0.2, density=0.2 if not small else 0.4)
        if small:
            m.data[...] = np.round(m.data / 160)
        nel, nph = m.el.size, m.ph.size
        plan = [dict(op='eval', q4=vec(6), k4=vec(6)) for _ in range(2)]
        if len(set(map(tuple, m.Rg))) == len(m.Rg) and \
                len(set(map(tuple, m.Rk))) == len(m.Rk):
            plan.append(dict(op='get', q4=ints(rng.choice(list(m.Rg))),
                k4=ints(rng.choice(list(m.Rk)))))
            plan.append(dict(op='get', q4=vec(1), k4=vec(1)))
        plan.append(sample_step(m, nel, nph, small=small))
        if i % 3 == 0:
            plan.append(sample_step(m, nel, nph, nk=rng.choice(([2, 2], [4, 4])),
                small=small, transform=True))
        recs.append(crun('elph-%d' % i, m, plan, len(recs)))

    # band basis: Hamiltonians with known eigenvectors that depend on k
    P = dict(x=np.array([[0, 1], [1, 0]]), y=np.array([[0, -1j], [1j, 0]]),
        z=np.array([[1, 0], [0, -1]]), o=np.eye(2))
    for i in range(c.q(25, 150)):
        el = elphmod.el.Model()
        el.size = 2
        # H(k) is A for even and B for odd k1/(pi/2) / 2
        ax = rng.choice('xyz')
        A = rng.randint(-3, 3) * P['o'] + rng.choice((-1, 1)) * rng.randint(1, 3) * P[ax]
        flip = rng.random() < 0.7
        el.R = np.array([(0, 0, 0), (1, 0, 0), (-1, 0, 0)])
        B = 4 * P[ax] if flip else 0 * P['o']
        el.data = np.array([A, B, B]).astype(complex)
        m = elph_model(rng, nat=1, size=2, density=0.4)
        m.data[...] = np.round(m.data / 160)
        m.el = el
        ph = m.ph
        ph.R = np.array([(0, 0, 0), (1, 0, 0), (-1, 0, 0)])
        w = rng.sample(range(1, 9), 3)
        ph.data = np.array([np.diag(w), np.diag([3, 0, -3]), np.diag([3, 0, -3])]).astype(float)
        plan = []
        for _ in range(4):
            q4 = [rng.choice((0, 1, 2, 3, -2)), rng.randint(0, 3), rng.randint(0, 3)]
            k4 = [rng.choice((0, 1, 2, 3)), rng.randint(0, 3), rng.randint(0, 3)]
            E = np.linalg.eigvalsh(ph.D(*np.array(q4) * np.pi / 2))
            if min(abs(np.diff(E))) < 0.5:
                continue
            plan.append(dict(op='bands', q4=q4, k4=k4, s=1 if ax == 'z' else 2,
                elbnd=rng.random() < 0.7, phbnd=rng.random() < 0.6))
        recs.append(crun('bands-%d' % i, m, plan, len(recs)))
    c.judge('CouplingTrace', recs, verdict='Agree', histories=True)
