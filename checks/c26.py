import math, os, tempfile
from common import *
import numpy as np
import elphmod

LOG2 = math.log(2)
BASES = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 2, 0], [0, 0, 1]],
    [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [-1, 1, 0], [0, 0, 2]],
    [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[1, -1, 0], [1, 1, 0], [0, 0, 1]],
    [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    [[1, 0, 1], [0, 1, 0], [0, 0, 1]],
    [[1, 3, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [-3, 1, 0], [0, 0, 1]],
    [[1, 0, 0], [0, 1, 0], [3, 0, 1]]]
PLANAR = [b for b in BASES if b[0][2] == b[1][2] == b[2][0] == b[2][1] == 0]
TENSORS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[2, 1, 0], [1, 2, 0], [0, 0, 1]], [[1, 0, 0], [0, 2, 1], [0, 1, 3]]]

def fixed(z):
    return ints(np.round(np.asarray(z) * 65536))

def values(rng, i):
    """Long-range terms whose exact values consist of powers of two."""
    two = rng.random() < 0.5
    B = np.array(rng.choice(PLANAR if two else BASES))
    nat = rng.randint(1, 2)
    charges = lambda *shape: np.array([rng.randint(-2, 2) if rng.random() < 0.6
        else 0 for _ in range(int(np.prod(shape)))]).reshape(shape)
    Z = charges(nat, 3, 3)
    Q = charges(nat, 3, 3, 3) if rng.random() < 0.5 else None
    E = np.array(rng.choice(TENSORS))
    t, s, perp = rng.randint(1, 2), 0, rng.random() < 0.7
    h = rng.random() < 0.7
    if two:
        c = float(rng.randint(5, 20))
        B = B.copy()
        B[2] = [0, 0, 1]
        det = abs(round(np.linalg.det(B)))
        if rng.random() < 0.3:
            E = np.zeros((3, 3), dtype=int)
        if h:
            s = rng.choice((2, 3))
            E = E.copy()
            E[2, 2] = rng.choice((0, 1, 2))
        at = np.linalg.inv(B).T * 2 * np.pi
        at[2] = [0, 0, c]
        eps = np.eye(3) + 2 * E / c
        uD, ug = math.sqrt(math.pi), math.pi
    else:
        det = abs(round(np.linalg.det(B)))
        at = np.linalg.inv(B).T * 2 * np.pi
        eps = E.astype(float)
        uD, ug = math.pi, math.pi ** 2
    metric = B @ (np.eye(3, dtype=int) if two else E) @ B.T
    limit = 17 * t if not (two and s) else (24 // s) ** 2
    inv = np.linalg.inv(metric[:2, :2] if two else metric)
    while True:
        p = [rng.choice((0, 0, 1, 1, 2, -1, 3)) for _ in range(3)]
        if two:
            p[2] = 0
        # the cutoff is centred at the origin
        if math.sqrt(p @ metric @ p) + math.sqrt(limit) < math.sqrt(
                336 if two and s else 40 * t):
            break
    box = [int((math.sqrt(limit * inv[x, x]) + abs(p[x])) / 2) + 1
        for x in range(len(inv))] + [0] * two
    a = np.linalg.norm(at[0])
    scale = t / (4 * LOG2) if not (two and s) else 3.0
    crystal = [[rng.choice((0, 0, 1, -1, 2, 3)) for _ in range(3)] for _ in range(nat)]
    rm = [rng.randint(1, 3) for _ in range(nat)]
    divide = rng.random() < 0.5
    sys = dict(B=ints(B), det=det, E=ints(E), Z=ints(Z), Q=ints(Q) if Q is not None
        else [], c=crystal, rm=rm if divide else [1] * nat, two=two, t=t, s=s,
        perp=perp, box=box)
    r = dict(key='values-%d' % i, kind='values', exc='', sys=sys, p=p, D=[], g=[])
    def make(u):
        return elphmod.ph.Model(amass=np.array(rm, float) ** 2, at=at.copy(),
            tau=np.array(crystal) / 2 @ at, atom_order=['X'] * nat,
            alph=scale * (a / (2 * np.pi)) ** 2 / 4, epsil=eps.copy(), zeu=Z * u,
            Q=None if Q is None else Q * u, L=2 * s * LOG2 if s else None,
            perp=perp, divide_mass=divide, lr2d=two)
    def work():
        q = np.pi * np.array(p)
        m = make(uD)
        m.D_lr(*rng.sample([0.3, 0.7, 1.1], 3)) # no traces
        D = fixed(m.D_lr(*q))
        m = make(ug)
        el = elphmod.el.Model()
        el.size = 1
        g = fixed(elphmod.elph.Model(el=el, ph=m, divide_mass=divide).g_lr(*q))
        return D, g
    ok, v = call(work)
    if ok == 'ok':
        r['D'], r['g'] = v
    else:
        r['exc'] = v
    return r

def parameters(rng, two, nat, a):
    u = np.array([rng.uniform(-1, 1) for _ in range(3)])
    if two:
        u[2] = 0.0
    d = dict(Z=np.array([rng.uniform(-3, 3) for _ in range(9 * nat)]).reshape((nat, 3, 3)),
        eps=np.diag([rng.uniform(1.5, 4)] * 2 + [rng.uniform(1, 1.05) if two
            else rng.uniform(1.5, 4)]) + np.outer(u, u),
        Q=None if rng.random() < 0.4 else np.array([rng.uniform(-5, 5)
            for _ in range(27 * nat)]).reshape((nat, 3, 3, 3)),
        alpha=rng.uniform(0.4, 1.0), perp=rng.random() < 0.6, L=None)
    if two and rng.random() < 0.6:
        d['L'] = 30 * rng.uniform(1.1, 2) / (math.sqrt(112 * d['alpha']) * 2 * np.pi / a)
    return d

def meshpoints(nq):
    return [[4 // nq[0] * i, 4 // nq[1] * j, 4 // nq[2] * k] for i in range(nq[0])
        for j in range(nq[1]) for k in range(nq[2])]

def write_dynamical(rng, where, nq, D, at, tau, rm, params, shifts):
    """Dynamical matrices distributed over files as by ph.x."""
    points = meshpoints(nq)
    order = points[1:]
    rng.shuffle(order)
    groups = [[points[0]]]
    for p in order:
        if len(groups) > 1 and rng.random() < 0.5:
            groups[-1].append(p)
        else:
            groups.append([p])
    alat = rng.choice((1.0, 4.0))
    bg = np.linalg.inv(at).T * alat
    def cart(p):
        return np.array(p) / 4 @ bg
    nat = len(rm)
    with open(where + '0', 'w') as f:
        f.write('%d %d %d\n%d\n' % (*nq, len(groups)))
        for g in groups:
            f.write('%.15f %.15f %.15f\n' % tuple(cart(g[0])))
    for n, g in enumerate(groups):
        with open(where + str(n + 1), 'w') as f:
            f.write('Dynamical matrix file\n\n%d %d 0 %.15f 0 0 0 0 0\nBasis vectors\n'
                % (nat, nat, alat))
            for v in at:
                f.write('%.15f %.15f %.15f\n' % tuple(v / alat))
            for i in range(nat):
                f.write("%d 'X%d' %.15f\n" % (i + 1, i, rm[i] ** 2))
            for i in range(nat):
                f.write('%d %d %.15f %.15f %.15f\n' % (i + 1, i + 1, *tau[i] / alat))
            for p in g:
                shift = [rng.choice((0, 4)) if x > 1 else 0 for x in p]
                shifts[tuple(p)] = p = [x - y for x, y in zip(p, shift)]
                f.write('\n     Dynamical  Matrix in cartesian axes\n\n')
                f.write('     q = ( %.15f %.15f %.15f )\n\n'
                    % tuple(cart(p)))
                d = D[tuple(x * m // 4 % m for x, m in zip(p, nq))]
                for i in range(nat):
                    for j in range(nat):
                        f.write('%d %d\n' % (i + 1, j + 1))
                        for x in range(3):
                            f.write(' '.join('%.8f %.8f' % (z.real, z.imag) for z in
                                d[3 * i + x, 3 * j:3 * j + 3]) + '\n')
            if n == 0:
                f.write('\n     Dielectric Tensor:\n\n')
                for v in params['eps']:
                    f.write('%.15f %.15f %.15f\n' % tuple(v))
                f.write('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n\n')
                for i in range(nat):
                    f.write('     atom # %d\n' % (i + 1))
                    for v in params['Z'][i]:
                        f.write('%.15f %.15f %.15f\n' % tuple(v))
            f.write('\n     Diagonalizing the dynamical matrix\n\n')

BLANK = dict(op='', exc='', seeD=[], seeg=[], rows='', plain=False, cells=[])

def history(rng, i):
    length = rng.randint(3, 9)
    two = rng.random() < 0.5
    nq = [rng.choice((1, 2, 2, 4)), rng.choice((1, 2)), rng.choice((1, 1, 2))]
    nk = [rng.choice((1, 2)), rng.choice((1, 2)), rng.choice((1, 1, 2))]
    nat = rng.randint(1, 2)
    nel = rng.randint(1, 2)
    if two:
        nq[2] = nk[2] = 1
    at = np.diag([rng.uniform(4, 6), rng.uniform(4, 6), rng.uniform(5, 9)])
    at[1, 0] = rng.choice((0, rng.uniform(-2, 2)))
    if not two:
        at[2, :2] = rng.uniform(-1, 1), rng.uniform(-1, 1)
    tau = np.array([[rng.uniform(0, 1) for _ in range(3)] for _ in range(nat)]) @ at
    if two:
        tau[:, 2] = 0.0
    rm = [rng.randint(1, 3) for _ in range(nat)]
    divide = rng.random() < 0.5
    par = parameters(rng, two, nat, at[0, 0])
    way = rng.choice(('files', 'late', 'early', 'never'))
    if two and way == 'files':
        nq[0], nq[1] = rng.choice((2, 4)), 2 # recognised by the mesh
    big = int(np.prod(rm)) ** 2
    F = np.array([big * rng.randint(-9, 9) if rng.random() < 0.5 else 0
        for _ in range(int(np.prod(nq)) * 9 * nat ** 2)]).reshape((*nq, 3 * nat, 3 * nat))
    raw = np.round(np.fft.fftn(F, axes=(0, 1, 2))) # before division by masses
    root = np.repeat(rm, 3) if divide else np.ones(3 * nat)
    D = raw / np.outer(root, root)
    r = dict(key='history-%d-%s' % (i, way), steps=[], start=None)
    tmp = tempfile.mkdtemp()
    shifts = {}
    def build():
        kw = dict(divide_mass=divide, alph=par['alpha'], perp=par['perp'],
            Q=par['Q'], L=par['L'])
        if way == 'files':
            path = os.path.join(tmp, rng.choice(('dyn', 'x.dyn')))
            write_dynamical(rng, path, nq, raw, at, tau, rm, par, shifts)
            ph = elphmod.ph.Model(path, Q=par['Q'], L=par['L'], perp=par['perp'],
                divide_mass=divide, lr2d=None if two else False)
        else:
            ph = elphmod.ph.Model(amass=np.array(rm, float) ** 2, at=at.copy(),
                tau=tau.copy(), atom_order=['X'] * nat, lr2d=two,
                lr=way == 'early', epsil=None if way == 'never' else par['eps'],
                zeu=None if way == 'never' else par['Z'], **kw)
            if way == 'early':
                # totals known beforehand
                ph.nq = tuple(nq)
                ph.q0 = elphmod.bravais.mesh(*nq, flat=True)
                ph.D0 = D.reshape((-1, 3 * nat, 3 * nat)).copy()
                ph.update_short_range()
            else:
                elphmod.ph.q2r(ph, D_full=D, divide_mass=divide)
                ph.sample_orig()
        el = elphmod.el.Model()
        el.size = nel
        el.nk = tuple(nk)
        m = elphmod.elph.Model(el=el, ph=ph, divide_mass=divide)
        lr, ph.lr = ph.lr, False
        G = np.array([16 * complex(rng.randint(-9, 9), rng.randint(-9, 9))
            if rng.random() < 0.5 else 0 for _ in range(int(np.prod(nq) * np.prod(nk))
            * 3 * nat * nel ** 2)], dtype=complex).reshape((*nq, 3 * nat, *nk, nel, nel))
        elphmod.elph.q2r(m, nq, nk, G, np.array([[rng.uniform(0, 3), 0, 0]
            for _ in range(nel)]), divide_mass=divide,
            shared_memory=rng.random() < 0.3)
        m.sample_orig()
        ph.lr = lr
        if lr:
            m.update_short_range()
        return ph, m, G
    ok, v = call(build)
    start = dict(BLANK, op='begin', seeD=[], seeg=[], q=meshpoints(nq), k=meshpoints(nk), D=[], g=[])
    r['start'] = start
    if ok != 'ok':
        start['exc'] = v
        r['start'] = dict(start, exc='')
        r['steps'] = [dict(BLANK, op='none', exc='setup: ' + v)]
        return r
    ph, m, G = v
    start['D'] = [ints(x) for x in D.reshape((-1, 3 * nat, 3 * nat))]
    # [q][k][x][a][b]
    X = np.moveaxis(G, 3, 6).reshape((-1, int(np.prod(nk)), 3 * nat, nel, nel))
    start['g'] = [[ints(x) for x in y] for y in X]
    settled = {'D', 'g'}
    s = dict(ph=ph)
    def see(e):
        ph = s['ph']
        if 'D' in settled:
            for p in rng.sample(start['q'], min(3, len(start['q']))):
                # as sampled: elsewhere there is the error of the finite cutoff
                p = shifts.get(tuple(p), p)
                if not ph.lr:
                    p = [x + 4 * rng.choice((0, 0, 1, -1)) for x in p]
                Q = np.array(p) * np.pi / 2
                if ph is not m.ph:
                    Q = np.dot(ph.N, Q)
                e['seeD'].append(dict(p=p, m=fixed(ph.D(*Q)[:3 * nat])))
        if 'g' in settled:
            for p in rng.sample(start['q'], min(3, len(start['q']))):
                k = list(rng.choice(start['k']))
                p = shifts.get(tuple(p), p)
                if not ph.lr:
                    p = [x + 4 * rng.choice((0, 0, 1, -1)) for x in p]
                k = [x + 4 * rng.choice((0, 0, 1, -1)) for x in k]
                e['seeg'].append(dict(p=p, k=k, m=fixed(m.g(
                    *np.array(p) * np.pi / 2, *np.array(k) * np.pi / 2))))
        if e['plain']:
            e['rows'] = sorted([list(map(int, R)), [[int(x), int(y),
                round(float(ph.data[n, x, y]), 5)] for x, y in zip(*np.nonzero(
                    abs(ph.data[n]) > 1e-9))]] for n, R in enumerate(ph.R))
            e['rows'] = [x for x in e['rows'] if x[1]]
            e['rows'] = repr(e['rows'])
    first = dict(BLANK, op='none', seeD=[], seeg=[])
    ok, v = call(see, first)
    if ok != 'ok':
        first.update(exc='first observation: ' + v, seeD=[], seeg=[])
    r['steps'].append(first)
    if first['exc']:
        return r
    def step(op):
        e = dict(BLANK, op=op, seeD=[], seeg=[])
        def work():
            if op == 'set':
                new = parameters(rng, two, nat, at[0, 0])
                names = [n for n in new if rng.random() < 0.5]
                if 'alpha' in names or 'L' in names:
                    names += ['alpha', 'L']
                for n in sorted(set(names)):
                    old = getattr(ph, n)
                    if n in ('Z', 'Q', 'eps') and old is not None \
                            and new[n] is not None and rng.random() < 0.3:
                        old[...] = new[n] # modified in place
                    else:
                        setattr(ph, n, new[n])
                if ph.eps is None or ph.Z is None:
                    ph.eps, ph.Z = new['eps'], new['Z']
                ph.lr = rng.random() < 0.8
                if ph.lr2d is None:
                    ph.lr2d = two
                settled.clear()
            elif op == 'D':
                if not ph.lr or rng.random() < 0.8:
                    ph.update_short_range()
                else:
                    ph.update_short_range(flfrc=os.path.join(tmp, 'ifc'))
                settled.add('D')
                e['plain'] = not ph.lr
            elif op == 'g':
                m.update_short_range(shared_memory=rng.random() < 0.5)
                settled.add('g')
            elif op == 'sample':
                if 'D' in settled:
                    ph.sample_orig()
                if 'g' in settled:
                    m.sample_orig(shared_memory=rng.random() < 0.5)
            elif op == 'super':
                N = [rng.choice((1, -1, 2)) for _ in range(3)]
                if two:
                    N[2] = 1
                N = np.diag(N)
                if rng.random() < 0.6: # sheared
                    N[0, 1] = rng.choice((1, -1, 2, -2))
                s['ph'] = ph.supercell(*map(tuple, N.tolist()))
                cells = [ints(c) for c in s['ph'].cells]
                e['cells'] = cells
                settled.discard('g')
            see(e)
        ok, v = call(work)
        if ok != 'ok':
            e.update(exc=op + ' failed: ' + v, seeD=[], seeg=[])
        return e
    for n in range(length):
        op = rng.choice(('set', 'set', 'D', 'D', 'g', 'g', 'sample', 'sample'))
        if op == 'sample' and settled != {'D', 'g'}:
            op = rng.choice(('D', 'g'))
        if op == 'set' and not settled and rng.random() < 0.7:
            op = rng.choice(('D', 'g'))
        r['steps'].append(step(op))
        if r['steps'][-1]['exc']:
            break
    else:
        if 'D' in settled and rng.random() < 0.8:
            r['steps'].append(step('super'))
    import shutil
    shutil.rmtree(tmp)
    return r

def run(c):
    rng = c.rng
    c.explore('LongRangeDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS Params = {0, 1, 2}\n Depth = %d\n Careless = FALSE\n'
        'INVARIANTS Kept Original\n' % c.q(6, 9))
    seed = rng.random()
    c.judge('LongRangeTrace', farm(values, c.q(80, 1200), seed), verdict='OfValues')
    c.judge('LongRangeSplitTrace', farm(history, c.q(200, 3000), seed),
        verdict='Agree', histories=True)
