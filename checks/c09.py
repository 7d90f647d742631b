from common import *
from couplings import *

def awkward(rng, x):
    """Change block into one with vanishing aggregates."""
    n = len(x)
    a, b = rng.randrange(n), rng.randrange(n)
    v = 16 * rng.randint(1, 30)
    w = 1j * v if np.iscomplexobj(x) else v
    how = rng.randrange(5)
    if how == 0: # sum
        x[a, b] -= x.sum()
    elif how == 1: # trace
        x[a, a] -= np.trace(x)
    elif how == 2: # real part
        x[...] -= x.real
    elif how == 3: # all but one
        x[...] = 0.0
        x[a, b] = rng.choice((v, -v, w, -w))
    else: # sum of squares, antisymmetric
        x[...] = 0.0
        x[a, b] = v
        x[b, a] = rng.choice((-v, w))

def run(c):
    rng = c.rng
    recs = []
    def add(key, m, plan):
        recs.append(run_history(key, m, plan, len(recs)))
    for start in (1, 2):
        for i, h in enumerate(design(c, c.q(3, 4), start)):
            ops = [s['op'] for s in h]
            if ('std' in ops or 'sym' in ops) and not 'unit' in ops \
                    and (c.thorough or rng.random() < 0.4):
                add('design%d-%d' % (start, i), start_model(start), h)
    STD = dict(op='std')
    SYM = dict(op='sym')
    for i in range(c.q(80, 600)):
        def plan():
            p = rng.choice((
                [STD], [STD, STD], [SYM], [STD, SYM], [SYM, STD], [SYM, SYM],
                [eps_step(rng)], [STD, eps_step(rng), STD],
                [STD, eps_step(rng), dict(op='sym', alias=True)],
                [eps_step(rng), eps_step(rng)],
                [lambda m: shift(rng, units(m)), STD, SYM],
                [SYM, eps_step(rng), SYM], [dict(eps_step(rng), op='sym')],
                [dict(op='super', M=matrix(rng, 3)), STD, SYM]))
            return p
        p = plan()
        dup = rng.random() < 0.6
        if any(isinstance(s, dict) and s.get('q') for s in p):
            dup = False # threshold applies to elements before summation
        if isinstance(p[0], dict) and p[0]['op'] == 'super':
            dup = False
        add('el-%d' % i, el_model(rng, dup=dup), p)
        add('ph-%d' % i, ph_model(rng, dup=dup), p)
        if not any(callable(s) or s['op'] == 'sym' for s in p):
            add('elel-%d' % i, elel_model(rng, dup=dup), p)
    # contributions that cancel: no vanishing lattice vector survives
    for i in range(c.q(12, 60)):
        for kind in (el_model, ph_model, elel_model):
            m = kind(rng)
            if rng.random() < 0.6:
                j = rng.randrange(len(m.R))
                m.R = np.append(m.R, m.R[j:j + 1], axis=0)
                m.data = np.append(m.data, -m.data[j:j + 1], axis=0)
            else: # the anti-Hermitian part vanishes
                m.R = np.append(m.R, -m.R, axis=0)
                m.data = np.append(m.data, -m.data.transpose(0, 2, 1).conj(), axis=0)
            p = [STD, STD] if rng.random() < 0.5 or kind is elel_model else [SYM, SYM]
            add('cancel-%s-%d' % (kind.__name__, i), m, p)
    # blocks that only look empty: sums, traces, real parts, or corners vanish
    for i in range(c.q(16, 100)):
        for kind in (el_model, ph_model, elel_model):
            m = kind(rng)
            for j in range(len(m.R)):
                if rng.random() < 0.7:
                    awkward(rng, m.data[j])
            add('awkward-%s-%d' % (kind.__name__, i), m, rng.choice(
                ([STD], [STD, STD]) if kind is elel_model else
                ([STD], [SYM], [STD, SYM], [SYM, STD])))
    c.judge('ModelTrace', recs, verdict='Agree', histories=True)

    recs = []
    for i in range(c.q(60, 500)):
        m = elph_model(rng, nat=rng.choice((1, 1, 2)), shared=rng.random() < 0.3,
            nrg=rng.randint(1, 3), nrk=rng.randint(1, 3))
        eps = lambda op='std': dict(eps_step(rng), op=op)
        p = rng.choice(([STD], [STD, STD], [SYM], [SYM, SYM], [STD, SYM, STD],
            [SYM, STD], [eps()], [eps('sym')], [eps(), SYM, eps()]))
        dup = not any(s.get('q') for s in p) and rng.random() < 0.6
        if dup:
            Rg, Rk = list(map(tuple, m.Rg)), list(map(tuple, m.Rk))
            Rg += [rng.choice(Rg)] * rng.randint(0, 1)
            Rk += [rng.choice(Rk)] * rng.randint(0, 2)
            data = values(rng, (len(Rg), m.ph.size, len(Rk), m.el.size,
                m.el.size), density=0.2)
            if rng.random() < 0.4: # something cancels
                data[0] = 0.0
                data[-1] = 0.0
                Rg += [Rg[0], Rg[-1]]
                data = np.concatenate((data, data[1:2], -data[1:2]))[:len(Rg)] \
                    if len(data) > 1 else data
                Rg = Rg[:len(data)]
            fill(m, Rg, Rk, data, rng.random() < 0.3)
        recs.append(crun('elph-%d' % i, m, p, i))
    c.judge('CouplingTrace', recs, verdict='Agree', histories=True)
