"""Drivers of molecular dynamics: histories of calls in an exactly solvable case."""
import copy
import itertools
import math
import models, couplings
from common import *
import numpy as np
import elphmod
elphmod.misc.verbosity = 0
md, Ry = elphmod.md, elphmod.misc.Ry

class Skip(Exception):
    pass

def atoms(rng, nat):
    a = np.diag([float(rng.randint(3, 5)) for _ in range(3)])
    a[0, 1], a[2, 0] = rng.randint(-1, 1), rng.randint(-1, 1)
    return dict(a=a, r=np.array([[rng.randint(-12, 12) / 3 for _ in range(3)]
        for _ in range(nat)]), X=[rng.choice(('C', 'Ta', 'S', 'H')) for _ in range(nat)],
        M=np.array([float(rng.randint(1, 4)) ** 2 for _ in range(nat)]))

def model(rng, mode, excited=False, crossing=False):
    """Parameters of electrons, atoms, and their coupling."""
    p = dict(mode=mode, nat=rng.choice((1, 2, 2, 3)), no=rng.choice((2, 2, 3, 4)))
    if mode == 'mesh':
        p['nk'] = (2, 1) if excited else rng.choice(((1, 1), (2, 1), (2, 1),
            (1, 2), (2, 2), (3, 1), (3, 1), (3, 2)))
        if crossing:
            p['nk'] = (3, 1)
        p['nq'] = p['nk'] if crossing else tuple(rng.choice((1, n)) for n in p['nk'])
        p['dims'] = (1, 1)
    else:
        p['dims'] = rng.choice(((2, 1), (2, 1), (1, 2), (2, 2)) + (((3, 1), (1, 1))
            if mode == 'local' else ()))
        p['nk'] = p['nq'] = p['dims']
    n = 3 * p['nat']
    p['eps'] = [12 * i + rng.randint(0, 3) for i in range(p['no'])]
    local = mode == 'local'
    p['t'] = [0 if local else rng.randint(-1, 1) for _ in p['eps']]
    if crossing or mode == 'mesh' and not excited and rng.random() < 0.2: # of bands
        p['eps'] = [5 * i + rng.randint(0, 1) for i in range(p['no'])]
        p['t'] = [rng.choice((2, -2)) for _ in p['eps']]
    xy = [x % 3 < 2 for x in range(n)]
    p['g'] = [[rng.randint(-2, 2) * xy[x] for _ in p['eps']] for x in range(n)]
    p['h'] = [[0 if local else rng.choice((0, 0, 1, -1)) * xy[x] for _ in p['eps']]
        for x in range(n)]
    p['G'] = [[0 if local else rng.choice((0, 0, 1, -2)) * xy[x] for _ in p['eps']]
        for x in range(n)] # from atoms in neighbouring cells
    p['mix'] = [[] for _ in range(n)]
    p['pairs'] = rng.randint(1, p['no'] - 1)
    p['excited'] = 0
    if mode == 'mesh' and p['nk'] == (2, 1) and (excited or rng.random() < 0.15):
        p['excited'] = 1 / 2 # half a pair per unit cell: one of two states
        p['t'] = [rng.choice((-1, 1)) for _ in p['eps']]
        p['h'] = [[0] * p['no'] for x in range(n)]
        p['pairs'] = rng.choice([m for m in (1, 2, 3) if m < p['no']])
    i, j = rng.randrange(p['pairs']), rng.randrange(p['pairs'], p['no'])
    for x in range(n):
        if not xy[x] and rng.random() < 0.7:
            p['mix'][x] = [(i, j, rng.choice((1, 2, -1, 3)))]
    # symmetric force constants, to neighbours along the first two directions
    p['D'] = {}
    for R in (0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0):
        d = [[rng.randint(-9, 9) if rng.random() < 0.5 else 0 for _ in range(n)] for _ in range(n)]
        d = [[d[x][y] + d[y][x] for y in range(n)] for x in range(n)]
        if R == (0, 0, 0):
            p['D'][R] = d
        elif rng.random() < 0.7:
            p['D'][R] = p['D'][tuple(-x for x in R)] = d
    p['unscreen'] = rng.random() < 0.6
    p['axes'] = rng.choice(((0, 1), (0, 1), (0, 2), (1, 2)) + (((2, 0), (2, 1), (1, 0))
        if p['nk'][1] == 1 else ())) # of these two directions, in order of points
    p['atoms'] = atoms(rng, p['nat'])
    return p

def cos2(i, n):
    """Twice the cosine of i times an n-th of a turn."""
    return round(2 * math.cos(2 * math.pi * i / n))

def embed(p, v, rest=0):
    """Place two directions among three lattice vectors (keeps order of points)."""
    w = [rest] * 3
    for i, x in zip(p['axes'], v):
        w[i] = x
    return tuple(w)

def build(p):
    """Models for these parameters."""
    def place(Rs):
        return [embed(p, R) for R in Rs]
    no, n = p['no'], 3 * p['nat']
    el = elphmod.el.Model()
    el.size, el.rydberg, el.divide_ndegen = no, True, True
    el.R = np.array(place([(0, 0, 0), (1, 0, 0), (-1, 0, 0)]))
    el.data = np.array([np.diag(p['eps']), np.diag(p['t']), np.diag(p['t'])]) + 0j
    a = p['atoms']
    ph = elphmod.ph.Model(amass=a['M'].copy(), at=a['a'].copy(), tau=a['r'].copy(),
        atom_order=list(a['X']), divide_mass=False, lr=False)
    ph.R = np.array(place(p['D']))
    ph.data = np.array(list(p['D'].values()), dtype=float)
    elph = elphmod.elph.Model(el=el, ph=ph, divide_mass=False)
    Rg = [(0, 0, 0), (0, 1, 0)]
    Rk = [(0, 0, 0), (1, 0, 0), (-1, 0, 0)]
    data = np.zeros((2, n, 3, no, no), dtype=complex)
    for x in range(n):
        data[0, x, 0] = np.diag(p['g'][x])
        data[1, x, 0] = np.diag(p['G'][x])
        data[0, x, 1] = data[0, x, 2] = np.diag(p['h'][x])
        for i, j, v in p['mix'][x]:
            data[0, x, 0, i, j] = data[0, x, 0, j, i] = v
    couplings.fill(elph, place(Rg), place(Rk), data)
    return elph

def spec(p, cells):
    """The same parameters as the specification wants them."""
    no, n = p['no'], 3 * p['nat']
    S, to = [], []
    if p['mode'] == 'local':
        N = len(cells)
        size = N * n
        for c in range(N):
            for i in range(no):
                S.append(dict(e=p['eps'][i], c=[p['g'][x][i] * (c == d) for d in range(N)
                    for x in range(n)], k=1, i=i + 1, site=c + 1, orbital=c * no + i + 1))
        D = [[0] * size for _ in range(size)]
        for c, C in enumerate(cells):
            for R, d in p['D'].items():
                e = [tuple(b) for b in cells].index(tuple((C[k] + R[k]) % (list(p['dims'])
                    + [1])[k] for k in range(3)))
                for x in range(n):
                    for y in range(n):
                        D[c * n + x][e * n + y] += d[x][y]
        D = [D]
        to = [[1]]
        own = [[x['c'] for x in S]]
        mix = p['mix'] * N
        at = [c + 1 for c in range(N) for x in range(n)]
        pairs, nk, excited = p['pairs'] * N, 1, 0
    else:
        ks = list(itertools.product(*map(range, p['nk'])))
        size = n
        for ik, k in enumerate(ks):
            s = cos2(k[0], p['nk'][0])
            for i in range(no):
                S.append(dict(e=p['eps'][i] + s * p['t'][i], c=[p['g'][x][i] + p['G'][x][i]
                    + s * p['h'][x][i] for x in range(n)], k=ik + 1, i=i + 1, site=0,
                    orbital=i + 1))
        D, own = [], []
        for q in itertools.product(*map(range, p['nq'])):
            c = {R: cos2(q[0] * R[0], p['nq'][0]) * cos2(q[1] * R[1], p['nq'][1])
                for R in p['D']} # real part suffices as both R and -R contribute
            D.append([[sum(c[R] * d[x][y] for R, d in p['D'].items()) // 4
                for y in range(n)] for x in range(n)])
            own.append([[p['g'][x][i] + p['G'][x][i] * (-1) ** q[1] + p['h'][x][i]
                * cos2(k[0], p['nk'][0]) for x in range(n)] for k in ks for i in range(no)])
            to.append([ks.index(tuple((k[i] + q[i] * p['nk'][i] // p['nq'][i]) % p['nk'][i]
                for i in range(2))) + 1 for k in ks])
        mix, at = p['mix'], [0] * n
        pairs, nk, excited = p['pairs'], len(ks), p['excited']
    return dict(states=S, nk=nk, pairs=pairs, excited=int(excited * nk), size=size,
        norb=max(s['orbital'] for s in S),
        unscreen=p['unscreen'], D=D, mix=[[[i + 1, j + 1, v] for i, j, v in ms] + [[j + 1, i + 1, v]
            for i, j, v in ms] for ms in mix], to=to, at=at, own=own)

def levels(s, u):
    return [x['e'] + sum(c * v for c, v in zip(x['c'], u)) for x in s['states']]

def occupied(s, u):
    """Occupations if they are certain, i.e., within the domain."""
    E = levels(s, u)
    def lowest(S, n):
        S = sorted(S, key=lambda i: E[i])
        if 0 < n < len(S) and E[S[n]] - E[S[n - 1]] < 2:
            raise Skip
        return S[:n]
    every = range(len(E))
    if not s['excited']:
        return E, lowest(every, s['pairs'] * s['nk'])
    V = []
    for k in range(1, s['nk'] + 1):
        V += lowest([i for i in every if s['states'][i]['k'] == k], s['pairs'])
    C = [i for i in every if i not in V]
    gap = min(E[i] for i in C) - max(E[i] for i in V)
    if gap < 4 or any(max(E[i] for i in B) - min(E[i] for i in B) > gap - 2 for B in (V, C)):
        raise Skip # mean of Fermi levels possibly not in between
    return E, lowest(V, s['pairs'] * s['nk'] - s['excited']) + lowest(C, s['excited'])

def scale(s, u):
    """Common denominator of second derivatives."""
    L = 1
    for v in [0] * s['size'], u:
        E, O = occupied(s, v)
        pairs = {(m[0], m[1]) for ms in s['mix'] for m in ms}
        for p, q in itertools.product(range(len(E)), repeat=2):
            a, b = s['states'][p], s['states'][q]
            if (p in O) != (q in O) and a['site'] == b['site'] and (a['i'] == b['i']
                    or (a['i'], b['i']) in pairs):
                L = math.lcm(L, abs(E[p] - E[q]))
                if not E[p] - E[q]:
                    raise Skip
    if L * s['nk'] > 3000:
        raise Skip
    return L * s['nk']

def displacements(rng, s, nat, tiles):
    while True:
        u = [[rng.choice((0, 0, 1, -1, 2)) * nat * (x < 2) for x in range(3)] for _ in range(nat)]
        w = np.array(u)
        if (w.sum(axis=0) % nat == 0).all():
            break
    if rng.random() < 0.5: # not centred
        w = w + np.array([rng.randint(-2, 2), rng.randint(-2, 2), 0])
    return w.ravel().tolist()

class System:
    """A real driver and how to project its reports."""
    def __init__(self, rng, p, elph):
        self.p, self.rng = p, rng
        mode, dims = p['mode'], p['dims']
        kind = 'dense' if mode == 'mesh' else rng.choice(('dense', 'sparse', 'option'))
        if mode == 'replica' and p['unscreen'] and kind == 'option':
            kind = 'sparse'
        self.kind = kind
        self.copies = 1 if mode == 'mesh' else dims[0] * dims[1]
        f = 'fd' if not p['excited'] else elphmod.occupations.two_fermi_dirac
        if not p['excited'] and rng.random() < 0.3:
            f = rng.choice(('gauss', 'mp', 'mv', elphmod.occupations.fermi_dirac))
        n = 2 * p['pairs']
        kw = dict(unscreen=p['unscreen'], shared_memory=rng.random() < 0.5)
        kT = rng.choice((0.02, 0.03))
        if p['excited']:
            kw['nx'] = 2 * p['excited']
        def mesh(n):
            if p['axes'] == (0, 1) and rng.random() < 0.7:
                return n
            n = embed(p, n, 1)
            return n if rng.random() < 0.5 else list(n)
        if mode == 'mesh':
            self.d = md.Driver(elph, kT, f, n, nk=mesh(p['nk']), nq=mesh(p['nq']), **kw)
        elif kind == 'option':
            self.d = md.Driver(elph, kT, f, n, nk=mesh(p['nk']), nq=mesh(p['nq']),
                supercell=embed(p, dims, 1), **kw)
        else:
            e = elph.supercell(*embed(p, dims, 1), sparse=kind == 'sparse')
            self.d = md.Driver(e, kT, f, n * self.copies, **kw)
        self.cells = [(int(c[p['axes'][0]]), int(c[p['axes'][1]]), 0)
            for c in self.d.elph.ph.cells] if mode != 'mesh' else [(0, 0, 0)]
        self.spec = spec(p, self.cells)
        self.r0 = self.d.elph.ph.r.copy()
        self.nat = len(self.r0)
        self.norb = self.spec['norb']
        self.tiles = self.copies if mode == 'replica' else 1
        self.u = [0] * self.spec['size']
        occupied(self.spec, self.u)
        scale(self.spec, self.u)
        if self.edge(self.u):
            raise Skip

    def edge(self, u):
        """Fermi level within its tolerance, but states still broadened?"""
        mu, kT = self.d.mu, self.d.kT
        shift = self.d.f.d * kT if self.p['excited'] else 0
        return min(abs(mu + s - E) for E in levels(self.spec, u)
            for s in (shift, -shift)) < 25 * kT

    def full(self, u):
        return np.array(u * self.tiles, dtype=float)

    def energy(self, E):
        return ints(E * 2 * self.spec['nk'] / self.tiles, tol=5e-2)

    def gradient(self, F):
        return ints(np.reshape(F, (self.tiles, -1)) * self.spec['nk'], tol=1e-2)

    def displaced(self):
        return ints(np.reshape(self.d.u, (self.tiles, -1)), tol=1e-5)

def centred(u):
    w = np.reshape(u, (-1, 3))
    return (w - w.sum(axis=0) // len(w)).ravel().tolist()

def step(rng, y, i, scratch):
    """One call to one driver, with displacements for which all is certain."""
    d, s = y.d, y.spec
    e = dict(d=i + 1, u=[], exc='', kept=True, tiles=[], L=1, asr=False, avg=[], mu=0, moved=[])
    hess = y.p['mode'] != 'replica'
    op = rng.choice(('energy', 'energy', 'gradient', 'gradient', 'call', 'density', 'save',
        'file', 'set', 'other') + ('hessian', 'hessian', 'phonons', 'electrons') * hess)
    e['op'] = op
    if op == 'save' and not y.cangoaway:
        return None
    def new():
        for _ in range(20):
            u = displacements(rng, s, s['size'] // 3, y.tiles)
            try:
                c = centred(u)
                occupied(s, c), scale(s, c)
                return u
            except Skip:
                pass
        raise Skip
    if op in ('hessian', 'phonons') and y.edge(y.u):
        return None
    f = os.path.join(scratch, 'file')
    def work():
        if op == 'energy':
            if rng.random() < 0.8:
                e['u'] = new()
                u = y.full(e['u'])
                if rng.random() < 0.2:
                    d.u = u
                    E = d.free_energy(show=False)
                    u = y.full(e['u'])
                else:
                    E = d.free_energy(u, show=rng.random() < 0.1)
                e['kept'] = bool((u == y.full(e['u'])).all())
                u[:] = 77 # what the caller does next is not our concern
            else:
                E = d.free_energy(show=False)
            e['tiles'] = [y.energy(E)]
        elif op == 'gradient':
            e['tiles'] = y.gradient(d.jacobian(show=False))
        elif op == 'call':
            e['u'] = new()
            r = y.r0 + y.full(e['u']).reshape((-1, 3))
            r0 = r.copy()
            E, F, v, _ = d(d.elph.ph.a, r)
            e['kept'] = bool((r == r0).all() and (d.elph.ph.r == y.r0).all())
            g = y.gradient(-2 * F)
            e['tiles'] = [dict(e=y.energy(2 * E), g=g[0], v=ints(abs(v).sum()))]
            if any(x != g[0] for x in g):
                raise RuntimeError('copies differ')
        elif op in ('hessian', 'phonons'):
            e['L'] = scale(s, y.u)
            if op == 'hessian':
                gamma = rng.random() < 0.4
                e['asr'] = rng.random() < 0.3
                if y.p['mode'] == 'local' and y.kind != 'dense' and not y.p['excited'] \
                        and rng.random() < 0.6: # all states weigh the same
                    C, g2 = d.hessian(gamma_only=gamma, apply_asr_simple=e['asr'], kT=1e9)
                    e['avg'] = ints(g2[0] * len(s['states']) ** 2, tol=1e-2)
                else:
                    C = d.hessian(gamma_only=gamma, apply_asr_simple=e['asr'])
                C = C[np.newaxis] if gamma else C
            else:
                mass = rng.random() < 0.5
                m = d.phonons(divide_mass=False) if not mass else d.phonons()
                q = [[2 * np.pi * a / n for a, n in zip(k, d.nq)]
                    for k in itertools.product(*map(range, d.nq))]
                C = np.array([m.D(*k) for k in q])
                if mass:
                    w = np.sqrt(np.repeat(d.elph.ph.M, 3))
                    C = C * np.outer(w, w)
                e['moved'] = ints(m.r - y.r0, tol=1e-5)
                e['moved'] = [x for v in e['moved'] for x in v]
                e['kept'] = bool((d.elph.ph.r == y.r0).all()) and m.divide_mass == mass
            if abs(C.imag).max() > 1e-6:
                raise RuntimeError('second derivatives not real')
            e['tiles'] = ints(C.real * e['L'], tol=0.2)
        elif op == 'density':
            rho = d.density()
            e['tiles'] = ints(rho * s['nk'], tol=1e-3)
        elif op == 'electrons':
            rydberg = rng.random() < 0.5
            m = d.electrons(rydberg=rydberg)
            nk = [int(x) for x in d.nk]
            H = np.array([m.H(*[2 * np.pi * x / n for x, n in zip(k, nk)])
                for k in itertools.product(*map(range, nk))])
            if not rydberg:
                H = H / Ry
            H = H + d.mu * np.eye(H.shape[-1])
            if abs(H.imag).max() > 1e-6:
                raise RuntimeError('Hamiltonian not real')
            e['tiles'] = ints(H.real, tol=1e-5)
            e['mu'] = int(np.floor(1000 * d.mu))
        elif op == 'save':
            u = d.u.copy()
            if rng.random() < 0.5:
                d.save(f)
                y.d = md.Driver.load(f)
            else:
                d.save(f)
                e['kept'] = bool((d.u == u).all()) # goes on with the original
            y.d.interactive = False
            e['tiles'] = y.displaced()
        elif op == 'file':
            if rng.random() < 0.6:
                d.to_xyz(f)
                if rng.random() < 0.5:
                    d.to_xyz(f, append=True)
                if rng.random() < 0.7:
                    d.free_energy(y.full([0] * s['size']), show=False)
                d.from_xyz(f)
                d.diagonalize()
                e['tiles'] = y.displaced()
            else:
                d.to_pwi(f)
                r = elphmod.bravais.read_pwi(f)
                u = elphmod.bravais.crystal_to_cartesian(r['r'], *d.elph.ph.a) - y.r0
                e['tiles'] = ints(u.reshape((y.tiles, -1)), tol=1e-5)
        elif op == 'set':
            e['u'] = new()
            if rng.random() < 0.5:
                d.u = y.full(e['u'])
            else:
                d.u[:] = y.full(e['u'])
            d.diagonalize()
        elif op == 'other': # must not disturb
            what = rng.choice(('center', 'super', 'density', 'random', 'diagonalize'))
            if what == 'center':
                d.center_mass()
            elif what == 'super':
                try:
                    d.superconductivity()
                except (ZeroDivisionError, FloatingPointError):
                    pass
            elif what == 'random':
                d.random_displacements()
                d.free_energy(y.full(y.u), show=False)
            elif what == 'diagonalize':
                d.diagonalize()
                d.diagonalize()
    try:
        ok, v = call(work, timeout=60)
        if ok != 'ok':
            if v.startswith('Skip'):
                return None
            e['exc'] = v
    finally:
        for g in f,:
            if os.path.exists(g):
                os.remove(g)
    if e['u']:
        y.u = centred(e['u'])
    return e

def history(rng, key, n, scratch):
    systems = []
    twins = rng.random() < 0.1 # both with two Fermi levels
    crossing = not twins and rng.random() < 0.15
    for _ in range(2 if twins else rng.choice((1, 1, 2))):
        for _ in range(50):
            if systems and rng.random() < 0.5 and y.p['mode'] == p['mode']:
                q = p # drivers for the same model
            else:
                q = model(rng, 'mesh', twins, crossing) if twins or crossing else model(rng, rng.choice(('mesh', 'mesh', 'mesh', 'local', 'local', 'replica')))
            if q is not None:
                new = not systems or q is not p
                elph = build(q) if new else elph
            p = q
            try:
                y = System(rng, p, elph)
            except Skip:
                continue
            y.cangoaway = True
            systems.append(y)
            break
    steps = []
    for _ in range(n):
        i = rng.randrange(len(systems))
        e = step(rng, systems[i], i, scratch)
        if e is not None:
            steps.append(e)
    return dict(key=key, start=dict(op='start', par=[y.spec for y in systems]), steps=steps)

def run(c):
    c.explore('DriverDesign', 'SPECIFICATION Spec\nINVARIANTS Pure Slope Curvature AtRest '
        'Softens Counts\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxU = %d\n' % c.q(1, 3))
    recs = []
    for i in range(c.q(240, 2400)):
        rng = random.Random('%s-%d' % (c.seed, i))
        key = 'history-%d' % i
        if c.only and not fnmatch.fnmatch(key, c.only):
            continue
        ok, r = call(history, rng, key, rng.randint(4, 14), c.scratch, timeout=300)
        if ok != 'ok':
            c.fail(key, 'construction raised ' + r)
            continue
        recs.append(r)
    c.judge('DriverTrace', recs, 'Agree', histories=True)
