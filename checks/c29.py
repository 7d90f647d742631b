"""Sum rules: corrections of force constants, charges, and couplings."""
import os, tempfile, shutil
import couplings
from common import *
import numpy as np
import elphmod

UNIT = 65536
BLANK = dict(exc='', before=[], after=[], rm=[], asr=False, rsr=False, P=[], m=[],
    zero=0, A=[], B=[], tol=0, D=[], scale=1)

def scaled(x):
    return ints(np.round(np.asarray(x) * UNIT))

def structure(rng, nat=None, compact=False):
    nat = nat or rng.randint(1, 3)
    if compact: # atoms within a cell that is not too skewed
        a = np.diag([float(rng.choice((2, 4))) for _ in range(3)])
        if rng.random() < 0.4:
            a[0, 0] = 2.0
            a[1, 0] = rng.choice((1, -1))
    while not compact:
        a = np.array([[rng.randint(-1, 3) for _ in range(3)] for _ in range(3)], float)
        if rng.random() < 0.5:
            a = np.diag([float(rng.randint(1, 4)) for _ in range(3)])
        if abs(np.linalg.det(a)) > 0.5:
            break
    r = np.array([[rng.randint(-3, 3) for _ in range(3)] for _ in range(nat)], float)
    if compact:
        r = np.array([[rng.randint(0, 1) for _ in range(3)] for _ in range(nat)], float)
    rm = [rng.randint(1, 3) for _ in range(nat)]
    if rng.random() < 0.3: # same species
        rm = [rm[0]] * nat
    names = {1: 'H', 2: 'He', 3: 'Be'}
    return dict(nat=nat, a=a, r=r, rm=rm, M=np.array(rm, float) ** 2,
        X=[names[x] for x in rm])

def six(data, nat):
    """Elements [n][k][x][l][y]."""
    return np.reshape(np.asarray(data), (-1, nat, 3, nat, 3))

def closed(rng, n):
    """Lattice vectors with their inverses."""
    R = [(0, 0, 0)]
    while len(R) < n:
        v = tuple(rng.randint(-1, 1) for _ in range(3))
        if v not in R:
            R += [v, tuple(-x for x in v)]
    rng.shuffle(R)
    return R

def symmetric(rng, R, nat, density=0.7):
    C = np.zeros((len(R), 3 * nat, 3 * nat))
    for i in np.ndindex(*C.shape):
        if rng.random() < density:
            C[i] = rng.randint(-9, 9)
    back = [R.index(tuple(-x for x in v)) for v in R]
    return C + C[back].transpose(0, 2, 1), back

def multipliers(C, D, P, back, asr, rsr):
    """Combination of constraints that explains the change."""
    n, nat = C.shape[:2]
    columns, names = [], []
    def add(c, *name):
        columns.append((c + c[back].transpose((0, 3, 4, 1, 2))).ravel())
        names.append(name)
    for k in range(nat):
        for x in range(3):
            for y in range(3):
                if asr:
                    c = np.zeros(C.shape)
                    c[:, k, x, :, y] = 1
                    add(c, 'A', k, x, y)
                if rsr:
                    for z in range(x):
                        c = np.zeros(C.shape)
                        c[:, k, x, :, y] += P[:, :, z]
                        c[:, k, z, :, y] -= P[:, :, x]
                        add(c, 'B', k, x, z, y)
    v = np.linalg.lstsq(np.array(columns).T, (C - D).ravel(), rcond=None)[0]
    A = np.zeros((nat, 3, 3))
    B = np.zeros((nat, 3, 3, 3))
    for name, w in zip(names, np.round(v * UNIT)):
        if name[0] == 'A':
            A[name[1:]] = w
        else:
            k, x, z, y = name[1:]
            B[k, x, z, y], B[k, z, x, y] = w, -w
    return ints(A), ints(B) if rsr else []

def compare(r, R, before, after, s, kind, asr, rsr, divided, exact=False):
    """Fill record with real-space elements before and after a correction."""
    nat = s['nat']
    R = [tuple(ints(v)) for v in R]
    back = [R.index(tuple(-x for x in v)) for v in R]
    P = np.einsum('nx,xy->ny', np.array(R), s['a'])[:, None] + s['r'][None]
    before, after = six(before, nat), six(after, nat)
    m = np.sqrt(s['M']) if divided else np.ones(nat)
    if kind == 'least':
        f = m[None, :, None, None, None] * m[None, None, None, :, None]
        if np.shape(after) != np.shape(before):
            raise ValueError('lattice vectors changed')
        r['A'], r['B'] = multipliers(before * f, after * f, P, back, asr, rsr)
    r.update(kind=kind, before=scaled(before), after=scaled(after), asr=asr, rsr=rsr,
        rm=s['rm'] if divided else [1] * nat, P=ints(P), m=[b + 1 for b in back],
        zero=R.index((0, 0, 0)) + 1, tol=0 if exact else 1)

def zone(r, ph, s):
    """Zone-centre matrix of a corrected model."""
    D = np.array(ph.D(0.0, 0.0, 0.0)).real
    r.update(kind='zone', D=scaled(D), rm=s['rm'] if ph.divide_mass else [1] * s['nat'],
        tol=2 + 2 * len(ph.R))

def table(rng, i):
    """Force constants on a mesh corrected in place."""
    s = structure(rng)
    nr = [rng.choice((1, 2, 3)) for _ in range(3)]
    nat = s['nat']
    cells = [(x, y, z) for x in range(nr[0]) for y in range(nr[1]) for z in range(nr[2])]
    back = [cells.index(tuple(-v % n for v, n in zip(c, nr))) for c in cells]
    C = np.array([rng.randint(-9, 9) for _ in range(len(cells) * 9 * nat ** 2)],
        float).reshape((len(cells), 3 * nat, 3 * nat))
    if rng.random() < 0.7:
        C = C + C[back].transpose(0, 2, 1)
    r = dict(BLANK, key='table-%d' % i)
    def work():
        phid = six(C, nat).reshape((*nr, nat, 3, nat, 3)).transpose(3, 5, 0, 1, 2, 4, 6).copy()
        elphmod.ph.asr(phid)
        D = phid.transpose(2, 3, 4, 0, 5, 1, 6).reshape(C.shape)
        r.update(kind='simple', before=ints(six(C, nat)), after=ints(six(D, nat)),
            asr=True, rm=[1] * nat, P=[[[0] * 3] * nat] * len(cells),
            m=[b + 1 for b in back], zero=1)
    ok, v = call(work)
    if ok != 'ok':
        r.update(kind='simple', exc=v)
    return [r]

def source(rng, s, tmp, nq):
    """How a model comes by its force constants: f(**flags) -> model."""
    nat = s['nat']
    R = [(0, 0, 0)]
    cells = [(x, y, z) for x in range(nq[0]) for y in range(nq[1]) for z in range(nq[2])]
    back = [cells.index(tuple(-v % n for v, n in zip(c, nq))) for c in cells]
    C = np.array([rng.randint(-9, 9) / 8 for _ in range(len(cells) * 9 * nat ** 2)]
        ).reshape((len(cells), 3 * nat, 3 * nat))
    C = C + C[back].transpose(0, 2, 1)
    phid = six(C, nat).reshape((*nq, nat, 3, nat, 3)).transpose(3, 5, 0, 1, 2, 4, 6).copy()
    how = rng.choice(('flfrc', 'flfrc', 'q2r', 'dyn', 'update'))
    divide = rng.random() < 0.6
    name = os.path.join(tmp, 'ifc')
    if how == 'flfrc':
        elphmod.ph.write_flfrc(name, phid, s['M'], s['a'], s['r'], s['X'])
        def make(**kw):
            return elphmod.ph.Model(name, divide_mass=divide, **kw)
    else:
        q = elphmod.bravais.mesh(*nq)
        D = np.einsum('...n,nij->...ij', np.exp(1j * np.einsum('...x,nx->...n', q,
            np.array(cells))), C)
        if how == 'q2r':
            given = rng.random() < 0.5
            if given:
                m = np.repeat(np.sqrt(s['M']), 3)
                D = D / np.outer(m, m)
            def make(**kw):
                ph = elphmod.ph.Model(amass=s['M'], at=s['a'], tau=s['r'],
                    atom_order=s['X'], divide_mass=divide)
                elphmod.ph.q2r(ph, D_full=D.copy(), divide_mass=given, **kw)
                return ph
        else:
            flat = q.reshape((-1, 3))
            D = D.reshape((-1, *D.shape[-2:]))
            b = np.linalg.inv(s['a']).T
            with open(name + '0', 'w') as f:
                f.write('%d %d %d\n%d\n' % (*nq, len(flat)))
                for v in flat:
                    f.write('%.15f %.15f %.15f\n' % tuple(v @ b / (2 * np.pi) * s['a'][0, 0]))
            for n in range(len(flat)):
                elphmod.ph.write_flfrc(name + str(n + 1), (flat[n:n + 1] @ b, D[n:n + 1]),
                    s['M'], s['a'], s['r'], s['X'])
            def make(**kw):
                if how == 'dyn':
                    return elphmod.ph.Model(name, divide_mass=divide, **kw)
                ph = elphmod.ph.Model(name, divide_mass=divide)
                if list(kw) == ['apply_asr_simple']:
                    ph.update_short_range(**kw)
                elif kw:
                    elphmod.ph.sum_rule_correction(ph, asr=kw.get('apply_asr', False),
                        rsr=kw.get('apply_rsr', False), report=False)
                return ph
    return how, make

def reading(rng, i):
    """Models read with and without corrections."""
    s = structure(rng, rng.choice((1, 2, 2)), compact=True)
    nq = rng.choice(((1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (1, 2, 2), (1, 3, 1)))
    simple = rng.random() < 0.5
    if simple:
        flags = dict(apply_asr_simple=True)
    else:
        flags = dict(rng.choice(((('apply_asr', True),), (('apply_rsr', True),),
            (('apply_asr', True), ('apply_rsr', True)))))
    r = dict(BLANK, key='model-%d' % i)
    z = dict(BLANK, key='zone-%d' % i)
    tmp = tempfile.mkdtemp()
    def work():
        how, make = source(rng, s, tmp, nq)
        r['key'] = '%s-%s-%d' % (how, '+'.join(sorted(flags)), i)
        plain, ph = make(), make(**flags)
        if ints(plain.R) != ints(ph.R):
            raise ValueError('lattice vectors changed')
        compare(r, ph.R, plain.data, ph.data, s, 'simple' if simple else 'least',
            simple or 'apply_asr' in flags, 'apply_rsr' in flags, ph.divide_mass)
        if r['asr']:
            zone(z, ph, s)
    ok, v = call(work)
    shutil.rmtree(tmp)
    if ok != 'ok':
        r.update(BLANK, kind='least', exc=v)
    return [r] + [z] * ('kind' in z and ok == 'ok')

def least(rng, i):
    """Force constants changed as little as possible."""
    s = structure(rng, rng.choice((1, 1, 2, 2, 3)))
    R = closed(rng, rng.choice((1, 3, 5)))
    C, back = symmetric(rng, R, s['nat'])
    divide = rng.random() < 0.6
    asr, rsr = rng.choice(((True, True), (True, False), (False, True)))
    r = dict(BLANK, key='least-%d' % i)
    z = dict(BLANK, key='least-zone-%d' % i)
    def work():
        m = np.repeat(np.sqrt(s['M']), 3)
        before = C / np.outer(m, m) if divide else C
        ph = elphmod.ph.Model(amass=s['M'], at=s['a'], tau=s['r'], atom_order=s['X'],
            divide_mass=divide)
        ph.R, ph.data = np.array(R), before.copy()
        for _ in range(rng.choice((1, 1, 2))):
            elphmod.ph.sum_rule_correction(ph, asr=asr, rsr=rsr, report=rng.random() < 0.5)
        compare(r, R, before, ph.data, s, 'least', asr, rsr, divide)
        if asr:
            zone(z, ph, s)
    ok, v = call(work)
    if ok != 'ok':
        r.update(BLANK, kind='least', exc=v)
    return [r] + [z] * ('kind' in z and ok == 'ok')

def charges(rng, i):
    """Born charges, corrected directly or when reading a file."""
    s = structure(rng)
    nat = s['nat']
    Z = np.array([rng.randint(-9, 9) for _ in range(9 * nat)], float).reshape((nat, 3, 3))
    r = dict(BLANK, key='charges-%d' % i, kind='charges', before=ints(Z), rm=[1] * nat)
    tmp = tempfile.mkdtemp()
    def work():
        if rng.random() < 0.4:
            z = Z.copy()
            elphmod.ph.zasr(z)
        else:
            name = os.path.join(tmp, 'ifc')
            if rng.random() < 0.6:
                elphmod.ph.write_flfrc(name, np.zeros((nat, nat, 1, 1, 1, 3, 3)), s['M'],
                    s['a'], s['r'], s['X'], 1.0, np.eye(3), Z)
                z = elphmod.ph.Model(name, apply_zasr=True, lr=False).Z
            else:
                z = elphmod.ph.Model(amass=s['M'], at=s['a'], tau=s['r'], atom_order=s['X'],
                    epsil=np.eye(3), zeu=Z, apply_zasr=True, lr=False).Z
        r['after'] = ints(np.round(z * nat, 6))
    ok, v = call(work)
    shutil.rmtree(tmp)
    if ok != 'ok':
        r['exc'] = v
    return [r]

def coupling(rng, i):
    """Couplings, real or imaginary for each pair of orbitals."""
    s = structure(rng)
    nat = s['nat']
    size, nrg, nrk = rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 2)
    scale = 4096
    d = np.zeros((nrg, 3 * nat, nrk, size, size), complex)
    for j in np.ndindex(*d.shape):
        if rng.random() < 0.7:
            d[j] = rng.randint(-9, 9)
    turn = np.array([rng.choice((1, 1j)) for _ in range(nrk * size ** 2)]).reshape((nrk, size, size))
    divide = rng.random() < 0.6
    r = dict(BLANK, key='coupling-%d' % i, kind='coupling', scale=scale,
        rm=s['rm'] if divide else [1] * nat)
    def five(d):
        return ints(d.reshape((nrg, nat, 3, -1)))
    def work():
        el = elphmod.el.Model()
        el.size = size
        ph = elphmod.ph.Model(amass=s['M'], at=s['a'], tau=s['r'], atom_order=s['X'],
            divide_mass=divide)
        m = elphmod.elph.Model(el=el, ph=ph, divide_mass=divide)
        data = d * turn
        if divide:
            data = data / np.repeat(np.sqrt(s['M']), 3)[None, :, None, None, None]
        R = lambda n: [tuple(v) for v in rng.sample([(x, y, 0) for x in range(-1, 2)
            for y in range(-1, 2)], n)]
        couplings.fill(m, R(nrg), R(nrk), data, shared=rng.random() < 0.5)
        for _ in range(rng.choice((1, 1, 2))):
            m.asr(report=rng.random() < 0.5)
        after = m.data / turn
        if abs(after.imag).max() > 1e-9:
            raise ValueError('couplings change their phase')
        r.update(before=five(d.real), after=five(np.round(after.real * scale)))
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return [r]

def hessian(rng, i):
    """Force constants reported by a molecular-dynamics driver."""
    s = structure(rng, rng.choice((1, 2, 2)))
    n = 3 * s['nat']
    R = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)]
    C, back = symmetric(rng, R, s['nat'])
    r = dict(BLANK, key='hessian-%d' % i, kind='reciprocal', rm=[1] * s['nat'], tol=1)
    tmp = tempfile.mkdtemp()
    def work():
        el = elphmod.el.Model(rydberg=True)
        el.size = 2
        el.R = np.array([(0, 0, 0)])
        el.data = np.array([np.diag([-5.0, 5.0])]) + 0j
        ph = elphmod.ph.Model(amass=s['M'], at=s['a'], tau=s['r'], atom_order=s['X'],
            divide_mass=False)
        ph.R, ph.data = np.array(R), C.copy()
        m = elphmod.elph.Model(el=el, ph=ph, divide_mass=False)
        g = np.zeros((1, n, 1, 2, 2), complex)
        if rng.random() < 0.7:
            for x in range(n):
                g[0, x, 0, 0, 1] = g[0, x, 0, 1, 0] = rng.randint(-2, 2)
        couplings.fill(m, [(0, 0, 0)], [(0, 0, 0)], g)
        nk, nq = rng.choice((((2, 1), (2, 1)), ((2, 2), (1, 2)), ((3, 1), (3, 1))))
        d = elphmod.md.Driver(m, 0.02, elphmod.occupations.fermi_dirac, 2.0,
            nk=nk, nq=nq, unscreen=rng.random() < 0.5)
        d.u[:] = 0.0
        d.diagonalize()
        gamma = rng.random() < 0.4
        kw = dict(gamma_only=gamma)
        if rng.random() < 0.3:
            kw['fildyn'] = os.path.join(tmp, 'dyn')
        out = []
        for flag in False, True:
            H = np.array(d.hessian(apply_asr_simple=flag, **kw)).reshape((-1, s['nat'], 3, s['nat'], 3))
            out.append(scaled(np.stack([H.real, H.imag], axis=-1)))
        r.update(before=out[0], after=out[1])
    ok, v = call(work)
    shutil.rmtree(tmp)
    if ok != 'ok':
        r['exc'] = v
    return [r]

def run(c):
    c.explore('SumRulesDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS Values = {%s}\n Depth = 2\nINVARIANTS Settled Keeps Idempotent OffSite NoTwist\n'
        % c.q('0, 1, 3', '0, 1, 2, 5'))
    seed = c.rng.random()
    records = []
    for f, quick, thorough in ((table, 60, 800), (reading, 120, 1600),
            (least, 80, 1000), (charges, 80, 800), (coupling, 120, 2000), (hessian, 40, 400)):
        for r in farm(f, c.q(quick, thorough), seed):
            records += r
    c.judge('SumRulesTrace', records, verdict='OfSumRules')
