from common import *
from lattices import *
from meshes import *
from models import entries
import contextlib, io
import elphmod

BASE = dict(exc='', rows=[], raw=[], unit='1', input=False, model=False, rt=[],
    size=0, nk=[])

def energies(data):
    for name, f in ('1', 1.0), ('Ry', elphmod.misc.Ry), ('1/Ry', 1 / elphmod.misc.Ry):
        if not any(BAD in x for x in np.reshape(ints(np.asarray(data) / f + 0j), (-1, 2)).tolist()):
            return name, data / f
    return '1', data

def electrons(c, i, kind):
    rng = c.rng
    at = LATTICES[rng.choice(sorted(LATTICES))]
    nr = mesh3(rng)
    n = rng.randint(1, 2)
    tau = sites(rng, at, n)
    while not within(at, nr, (tau, tau)):
        nr, tau = mesh3(rng), sites(rng, at, n)
    u = unit(at, nr, (tau, tau))
    H = sparse_ints(rng, (*nr, n, n), u, rng.randint(1, 12))
    r = dict(BASE, key='%s-%d' % (kind, i), kind=kind, at=at, nr=nr, tau=tau,
        mesh=nonzero(H, 3), wantsize=n)
    a, t = np.array(at, float), np.array(tau, float)
    form = short(nr, rng)
    fft = rng.random() < 0.8
    def work():
        X = H.reshape((*form, n, n))
        if not fft:
            X = np.fft.ifftn(H.conj(), axes=(0, 1, 2)).conj().reshape((*form, n, n))
        dig = digest((X, a, t))
        if kind == 'el':
            m = elphmod.el.Model(rydberg=r['model'], divide_ndegen=True)
            elphmod.el.k2r(m, X, a, t, fft=fft, rydberg=r['input'])
            r['nk'] = ints(m.nk)
            r['unit'], m.data = energies(m.data)
        else:
            m = elphmod.elel.Model()
            elphmod.elel.q2r(m, X, a, t, fft=fft)
            r['nk'] = nr
        r['rows'], r['raw'] = entries(m.R, m.data)
        r['size'] = int(m.size)
        if digest((X, a, t)) != dig:
            raise RuntimeError('argument modified')
    if kind == 'el':
        r['input'], r['model'] = rng.random() < 0.5, rng.random() < 0.5
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def phonons(c, i):
    rng = c.rng
    at = LATTICES[rng.choice(sorted(LATTICES))]
    nr = mesh3(rng)
    n = rng.randint(1, 2)
    tau = sites(rng, at, n)
    while not within(at, nr, (tau, tau)):
        nr, tau = mesh3(rng), sites(rng, at, n)
    rt = [rng.randint(1, 4) for _ in range(n)]
    u = unit(at, nr, (tau, tau)) * int(np.prod(rt)) ** 2
    D = sparse_ints(rng, (*nr, 3 * n, 3 * n), u, rng.randint(1, 10))
    hermitian_mesh(D, nr)
    r = dict(BASE, key='ph-%d' % i, kind='ph', at=at, nr=nr, tau=tau, rt=rt,
        mesh=nonzero(D, 3), wantsize=3 * n, input=rng.random() < 0.5,
        model=rng.random() < 0.5)
    form = short(nr, rng)
    def work():
        m = elphmod.ph.Model(amass=np.array(rt, float) ** 2,
            at=np.array(at, float), tau=np.array(tau, float),
            atom_order=['X'] * n, divide_mass=r['model'])
        X = D.reshape((*form, 3 * n, 3 * n))
        dig = digest(X)
        elphmod.ph.q2r(m, D_full=X, divide_mass=r['input'],
            **(dict(nq=nr) if rng.random() < 0.2 else {}))
        if digest(X) != dig:
            raise RuntimeError('argument modified')
        r['rows'], r['raw'] = entries(m.R, m.data)
        r['size'] = int(m.size)
        r['nk'] = ints(m.nq)
        if ints(m.M) != [x * x for x in rt] or ints(m.a) != at or ints(m.r) != tau:
            raise RuntimeError('structure changed')
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def couplings(c, i):
    rng = c.rng
    at = LATTICES[rng.choice(sorted(LATTICES))]
    nq = mesh3(rng, 4)
    nk = mesh3(rng, 4)
    nat = rng.randint(1, 2)
    no = rng.randint(1, 2)
    ra, ro = sites(rng, at, nat), sites(rng, at, no)
    while not within(at, nq, (ro, ra), (ra, ro)) or not within(at, nk, (ro, ro)):
        nq, nk = mesh3(rng, 4), mesh3(rng, 4)
        ra, ro = sites(rng, at, nat), sites(rng, at, no)
    rt = [rng.randint(1, 4) for _ in range(nat)]
    u = unit(at, nq, (ro, ra)) * unit(at, nk, (ro, ro)) * int(np.prod(rt))
    g = sparse_ints(rng, (*nq, 3 * nat, *nk, no, no), u, rng.randint(1, 8), span=9)
    r = dict(key='elph-%d' % i, exc='', at=at, nq=nq, nk=nk, ra=ra, ro=ro, rt=rt,
        input=rng.random() < 0.5, model=rng.random() < 0.5, rg=[], rk=[], raw=[],
        mesh=[[*x[:3], *x[4:7], x[3], *x[7:]] for x in nonzero(g, 6)])
    fq, fk = short(nq, rng), short(nk, rng)
    def work():
        ph = elphmod.ph.Model(amass=np.array(rt, float) ** 2,
            at=np.array(at, float), tau=np.array(ra, float),
            atom_order=['X'] * nat, divide_mass=r['model'])
        el = elphmod.el.Model()
        el.size = no
        m = elphmod.elph.Model(el=el, ph=ph, divide_mass=r['model'], divide_ndegen=True)
        X = g.reshape((*fq, 3 * nat, *fk, no, no))
        dig = digest(X)
        r0 = np.array(ro, float)
        if rng.random() < 0.4: # fill once with something else, keep the lattice
            elphmod.elph.q2r(m, fq, fk, np.roll(X, 1, axis=0) * 2 - 1, r0)
            elphmod.elph.q2r(m, fq, fk, X, divide_mass=r['input'])
        else:
            elphmod.elph.q2r(m, fq, fk, X, r0, divide_mass=r['input'],
                shared_memory=rng.random() < 0.5)
        if digest(X) != dig:
            raise RuntimeError('argument modified')
        r['rg'], r['rk'] = ints(m.Rg), ints(m.Rk)
        for j in zip(*np.nonzero((abs(m.data) > 1e-9) | ~np.isfinite(m.data))):
            G, x, K, a, b_ = map(int, j)
            r['raw'].append([G + 1, x, K + 1, a, b_] + ints(
                [m.data[j].real, m.data[j].imag]))
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def wedge(c, i):
    """Phonons from irreducible wedge and from full mesh."""
    import symmetric
    rng = c.rng
    r = dict(key='wedge-%d' % i, exc='', rows1=[], rows2=[], data1=[], data2=[], tol=2)
    ph, nq, angle = symmetric.model(rng)
    def work():
        D = symmetric.sample(ph, nq)
        irr = sorted(elphmod.bravais.irreducibles(nq, angle=angle)
            if angle != 90 else [(p, q) for p in range(nq) for q in range(nq)])
        q = [(2 * np.pi * q1 / nq, 2 * np.pi * q2 / nq) for q1, q2 in irr]
        Dirr = np.array([D[p] for p in irr])
        out = []
        for kw in dict(D_full=D.copy()), dict(D_irr=Dirr, q_irr=q, nq=nq, angle=angle):
            m = symmetric.empty(ph)
            elphmod.ph.q2r(m, **kw)
            out.append((ints(m.R), ints(m.data.ravel() * 1e5, tol=0.6)))
        r['rows1'], r['data1'] = out[0]
        r['rows2'], r['data2'] = out[1]
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def run(c):
    n = c.q(60, 500)
    with contextlib.redirect_stdout(io.StringIO()):
        recs = [electrons(c, i, 'el') for i in range(n)]
        recs += [electrons(c, i, 'elel') for i in range(n // 2)]
        recs += [phonons(c, i) for i in range(n)]
        el = [couplings(c, i) for i in range(c.q(30, 300))]
        we = [wedge(c, i) for i in range(c.q(24, 200))]
    c.judge('MeshModelTrace', recs)
    c.judge('MeshModelTrace', el, verdict='CVerdict')
    c.judge('MeshModelTrace', we, verdict='EqualVerdict')
