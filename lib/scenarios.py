"""What a parallel program may ask of the library: every scenario is a function
of its parameters alone, so that all processes prepare the same inputs."""
import os
import random
import numpy as np

ALL = {}


def scenario(*variants, weight=1):
    def register(f):
        ALL[f.__name__] = (f, list(variants) or [{}], weight)
        return f
    return register


def flags(**kw):
    """All combinations of values."""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def run(name, par=None, look=lambda x: None):
    if name == 'import':
        return None
    import elphmod
    elphmod.misc.verbosity = 0
    f, _, _ = (ALL if name in ALL else PROBES)[name]
    par = dict(par)
    seed = par.pop('seed')
    rng = random.Random('%s-%d' % (name, seed))
    npr = np.random.default_rng(random.Random('%s-%d' % (name, seed)).randrange(2 ** 60))
    return plain(f(rng, npr, **par), look)


def plain(x, look):
    """Results as plain data that can be compared."""
    if isinstance(x, np.ndarray):
        look(x)
        return np.array(x) if x.dtype != object else [plain(y, look) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v, look) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(y, look) for y in x]
    if isinstance(x, (set, frozenset)):
        return [plain(y, look) for y in sorted(x)]
    if isinstance(x, (int, float, complex, str, bool, np.generic)) or x is None:
        return x
    if hasattr(x, 'toarray'):
        return x.toarray()
    raise TypeError(type(x))


def deviation(a, b):
    """Order of magnitude of the difference: -99 for none, 99 for structure."""
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if len(a) != len(b):
            return 99
        return max([deviation(x, y) for x, y in zip(a, b)] or [-99])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return 99
        return max([deviation(a[k], b[k]) for k in a] or [-99])
    if isinstance(b, str) and b == 'private':
        return -99
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return -99 if type(a) == type(b) and a == b else 99
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
        return 99
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return 99
    if a.dtype.kind in 'US':
        return -99 if (a == b).all() else 99
    if not a.size:
        return -99
    if a.dtype.kind in 'b':
        return -99 if (a == b).all() else 99
    same = (a == b) | (np.isnan(a) & np.isnan(b)) if a.dtype.kind in 'fc' else a == b
    if same.all():
        return -99
    if a.dtype.kind in 'iu':
        return 99
    with np.errstate(all='ignore'):
        d = abs(a - b)[~same]
        s = max(1.0, np.abs(np.where(np.isfinite(a), a, 0)).max())
        if not np.isfinite(d).all():
            return 99
        return int(max(-98, min(98, np.ceil(np.log10(d.max() / s + 1e-98)))))

# -- helpers -----------------------------------------------------------------

def comm():
    import elphmod
    return elphmod.MPI.comm

def private(x, broadcast=True):
    """Results promised to every process or to the first one only."""
    return x if broadcast or comm().rank == 0 else 'private'

def kmatrix(npr, bands, dim=2, n=5, hermitian=True):
    R = npr.integers(-2, 3, (n, dim))
    t = npr.random((n, bands, bands)) + 1j * npr.random((n, bands, bands))
    t[0] += 5 * np.diag(np.arange(bands))

    def H(*k):
        k = np.array((tuple(k) + (0,) * dim)[:dim], dtype=float)
        h = np.einsum('n,nab->ab', np.exp(1j * R.dot(k)), t)
        return h + h.conj().T if hermitian else h
    return H

def c3(bands, npr, angle=60):
    """Hamiltonian with the symmetry of the lattice."""
    t = npr.random((3, bands))

    def H(k1=0, k2=0, k3=0):
        if angle == 90:
            s = np.cos(k1) + np.cos(k2)
            s2 = np.cos(k1) * np.cos(k2)
        else:
            k3 = k1 + k2 if angle == 120 else k2 - k1
            s = np.cos(k1) + np.cos(k2) + np.cos(k3)
            s2 = np.cos(2 * k1) + np.cos(2 * k2) + np.cos(2 * k3)
        h = np.diag(t[0] * s + t[1] * s2 + 4 * np.arange(bands)).astype(complex)
        for i in range(bands - 1):
            h[i, i + 1] = h[i + 1, i] = t[2, i] * (s + 0.3)
        return h
    return H

def eltilde(m, *names):
    return {k: getattr(m, k) for k in names if hasattr(m, k) and getattr(m, k) is not None}

def by_vector(R, *data):
    """The order of lattice vectors has no meaning."""
    R = np.array(R)
    o = np.lexsort(R.T)
    return [R[o]] + [np.array(x)[o] for x in data]

def elsorted(m, f=None):
    r = (f or elres)(m)
    r['R'], r['data'] = by_vector(r['R'], r['data'])
    return r

def elres(m):
    return eltilde(m, 'R', 'data', 'size', 'a', 'r', 'cells', 'rydberg', 'divide_ndegen')

def phres(m):
    return eltilde(m, 'R', 'data', 'size', 'nat', 'a', 'r', 'M', 'atom_order', 'Z', 'Q', 'cells', 'N',
        'divide_mass', 'divide_ndegen', 'lr')

def gres(m):
    return dict(eltilde(m, 'Rg', 'Rk', 'data', 'cells', 'Rk0'), el=elres(m.el), ph=phres(m.ph))

def gsorted(m):
    r = gres(m)
    r['Rg'], r['data'] = by_vector(r['Rg'], r['data'])
    r['Rk'], data = by_vector(r['Rk'], np.moveaxis(r['data'], 2, 0))
    r['data'] = np.moveaxis(data, 0, 2)
    r.pop('Rk0', None)
    r['el'] = elsorted(m.el)
    r['ph'] = elsorted(m.ph, phres)
    return r

def matrix3(rng):
    while True:
        M = [[rng.randint(-1, 2) for _ in range(3)] for _ in range(3)]
        d = round(np.linalg.det(M))
        if 1 <= abs(d) <= 4:
            return [tuple(v) for v in M]

# -- dispersion ----------------------------------------------------------------

@scenario(*flags(vectors=[False, True], order=[False, True], broadcast=[True, False], shared_memory=[False, True]))
def dispersion(rng, npr, hermitian=True, **kw):
    import elphmod
    n, bands = rng.choice((1, 2, 3, 5, 7)), rng.choice((2, 3, 1))
    k = npr.random((n, 2)) if rng.random() < 0.6 else npr.random((n, 3, 2))
    return private(elphmod.dispersion.dispersion(kmatrix(npr, bands), k, gauge=True, **kw), kw['broadcast'])

@scenario(*flags(vectors=[False, True], broadcast=[True, False], shared_memory=[False, True]))
def dispersion_nonhermitian(rng, npr, **kw):
    import elphmod
    k = npr.random((rng.choice((1, 2, 4)), 2))
    return private(elphmod.dispersion.dispersion(kmatrix(npr, 2, hermitian=False), k, gauge=True, hermitian=False, **kw), kw['broadcast'])

@scenario(*flags(vectors=[False, True], order=[False, True], broadcast=[True, False], shared_memory=[False, True]))
def dispersion_full(rng, npr, **kw):
    import elphmod
    angle = rng.choice((60, 90, 120))
    return private(elphmod.dispersion.dispersion_full(c3(rng.choice((1, 2, 3)), npr, angle), rng.choice((1, 2, 3, 4)),
        angle=angle, gauge=True, **kw), kw['broadcast'])

@scenario(*flags(vectors=[False, True], order=[False, True], broadcast=[True, False], shared_memory=[False, True]))
def dispersion_full_nosym(rng, npr, **kw):
    import elphmod
    return private(elphmod.dispersion.dispersion_full_nosym(c3(2, npr), rng.choice((2, 3, 4)), gauge=True, **kw), kw['broadcast'])

@scenario()
def dispersion_mesh3(rng, npr):
    import elphmod
    return elphmod.dispersion.dispersion_full_nosym(kmatrix(npr, 2, 3), (2, 1, 3), vectors=True, gauge=True)

@scenario()
def sample_matrix(rng, npr):
    import elphmod
    return elphmod.dispersion.sample(kmatrix(npr, 2), npr.random(rng.choice([(1, 2), (2, 2), (2, 3, 2), (7, 2)])))

@scenario()
def unfolding(rng, npr):
    import elphmod
    n = rng.choice((1, 2, 5))
    z = lambda *s: npr.random(s) + 1j * npr.random(s)
    R = [(0, 0), (1, 0)]
    return elphmod.dispersion.unfolding_weights(npr.random((n, 2)), R, z(n, 2, 2), z(n, 4, 4))

# -- coupling ------------------------------------------------------------------

def coupling_model(rng, shared=False, **kw):
    from couplings import elph_model
    return elph_model(rng, shared=shared, nrg=kw.pop('nrg', rng.choice((1, 2, 3, 5))), nrk=rng.choice((1, 2, 3)),
        density=0.5, **kw)

def qpoints(rng, nq):
    q = [(a, b) for a in range(nq) for b in range(nq)]
    return 2 * np.pi * np.array(rng.sample(q, rng.randint(1, len(q))), dtype=float) / nq

@scenario(*flags(shared_memory=[False, True], broadcast=[True, False], squared=[False, True]), weight=2)
def sample_coupling(rng, npr, **kw):
    import elphmod
    m = coupling_model(rng)
    nk = rng.choice((1, 2))
    q = qpoints(rng, rng.choice((1, nk)))
    U = u = None
    z = lambda *s: npr.random(s) + 1j * npr.random(s)
    if rng.random() < 0.6:
        U = z(nk, nk, m.el.size, rng.randint(1, m.el.size))
    if rng.random() < 0.6:
        u = z(len(q), m.ph.size, m.ph.size)
    return private(elphmod.elph.sample(m.g, q, nk, U=U, u=u, **kw), kw['broadcast'])

@scenario(*flags(shared_memory=[False, True], broadcast=[True, False], squared=[False, True]))
def transform_coupling(rng, npr, **kw):
    import elphmod
    z = lambda *s: npr.random(s) + 1j * npr.random(s)
    nk = rng.choice((1, 2))
    q = qpoints(rng, nk)
    g = z(len(q), 3, nk, nk, 2, 2)
    return private(elphmod.elph.transform(g, q, nk, U=z(nk, nk, 2, 2) if rng.random() < 0.6 else None,
        u=z(len(q), 3, 3) if rng.random() < 0.6 else None, **kw), kw['broadcast'])

@scenario(*flags(shared=[False, True], elbnd=[False, True], broadcast=[True, False]))
def coupling_points(rng, npr, shared, **kw):
    m = coupling_model(rng, shared)
    comm().Barrier()
    pts = npr.random((2, 6))
    r = [m.g(*p, **kw) for p in (pts[0], pts[0], pts[1])]
    if kw['elbnd']:
        r = [abs(x) for x in r if x is not None] or None
    return private(r, kw['broadcast']), m.gR(*m.Rg[0], *m.Rk[-1]) if kw['broadcast'] else None

@scenario(*flags(shared=[False, True], shared_memory=[False, True]), weight=2)
def coupling_supercell(rng, npr, shared, shared_memory):
    m = coupling_model(rng, shared)
    comm().Barrier()
    return gres(m.supercell(*matrix3(rng), shared_memory=shared_memory))

@scenario()
def coupling_supercell_sparse(rng, npr):
    m = coupling_model(rng)
    s = m.supercell(*matrix3(rng), sparse=True)
    return dict(gs=[x.toarray() for x in s.gs], Hs=s.el.Hs.toarray(), Ds=s.ph.Ds.toarray())

@scenario(*flags(shared=[False, True], symmetrize=[False, True]), weight=2)
def coupling_standardize(rng, npr, shared, symmetrize):
    m = coupling_model(rng, shared, dup=True)
    comm().Barrier()
    m.standardize(eps=rng.choice((0.0, 1e-10)), symmetrize=symmetrize)
    return gres(m)

@scenario(*flags(shared=[False, True]))
def coupling_asr(rng, npr, shared):
    m = coupling_model(rng, shared)
    comm().Barrier()
    m.asr(report=False)
    return gres(m)

@scenario(*flags(shared_memory=[False, True], lr=[False, True]), weight=2)
def coupling_q2r(rng, npr, shared_memory, lr=False):
    import elphmod
    m = coupling_model(rng)
    nq, nk = rng.choice([((1, 1), (1, 1)), ((2, 1), (2, 2)), ((2, 2), (2, 2)), ((1, 2), (2, 2))])
    z = npr.random((int(np.prod(nq)), m.ph.size, *nk, m.el.size, m.el.size)) * (1 + 0j)
    elphmod.elph.q2r(m, nq, nk, z, r=np.zeros((m.el.size, 3)), shared_memory=shared_memory)
    return gsorted(m)

@scenario(*flags(shared_memory=[False, True]), weight=2)
def coupling_long_range(rng, npr, shared_memory):
    import elphmod
    m = coupling_model(rng, size=1, nat=1, dim=2)
    m.divide_mass = m.ph.divide_mass = False
    m.ph.a = np.eye(3) * 5
    m.ph.a[2, 2] = 20
    nq = (2, 2)
    elphmod.ph.q2r(m.ph, D_full=np.array([[np.diag(npr.random(3)) + 0j] * 2] * 2), nq=nq, divide_mass=False)
    z = npr.random((4, m.ph.size, *nq, 1, 1)) * (1 + 0j)
    elphmod.elph.q2r(m, nq, nq, z, r=np.zeros((1, 3)))
    m.el.nk = nq
    m.ph.lr = False
    m.ph.sample_orig()
    m.sample_orig(shared_memory=shared_memory)
    m.ph.eps = np.diag((3.0, 3.0, 2.0))
    m.ph.alpha = 0.2
    m.ph.Q = None
    m.ph.perp = True
    m.ph.Z = np.array([np.diag((1.0, 1.5, 0.5))])
    m.ph.lr = True
    m.ph.lr2d = True
    m.ph.L = 10.0
    m.ph.update_short_range()
    m.update_short_range(shared_memory=shared_memory)
    return gsorted(m), m.g(1.0, 2.0, 0.0, 0.3), m.ph.D(1.0, 2.0)

# -- models ------------------------------------------------------------------

@scenario(*flags(kind=['el', 'ph', 'elel']), weight=2)
def model_cells(rng, npr, kind):
    import models
    m = getattr(models, kind + '_model')(rng, n=rng.choice((1, 2, 4, 7)))
    if kind == 'el':
        m.a = np.eye(3)
        m.r = npr.random((m.size, 3))
    if kind == 'elel':
        s = m.supercell(*matrix3(rng))
        return elres(s)
    s = m.supercell(*matrix3(rng))
    res = elres if kind == 'el' else phres
    u = s.unit_cell()
    return res(s), res(u)

@scenario(*flags(kind=['el', 'ph', 'elel']))
def model_standardize(rng, npr, kind):
    import models
    m = getattr(models, kind + '_model')(rng, n=rng.choice((1, 2, 4, 7)), dup=True)
    m.standardize(**({} if kind == 'elel' else dict(symmetrize=rng.random() < 0.5)))
    return (phres if kind == 'ph' else elres)(m)

@scenario(*flags(kind=['el', 'ph']))
def model_sparse(rng, npr, kind):
    import models
    m = getattr(models, kind + '_model')(rng, n=4)
    s = m.supercell(*matrix3(rng), sparse=True)
    return (s.Hs if kind == 'el' else s.Ds).toarray()

@scenario()
def model_from_mesh(rng, npr):
    import elphmod
    n1, n2 = rng.choice([(1, 1), (2, 2), (2, 3)])
    m = elphmod.el.Model()
    elphmod.el.k2r(m, npr.random((n1, n2, 2, 2)) + 0j, np.eye(3), npr.random((2, 3)))
    p = elphmod.ph.Model(amass=[1.0], at=np.eye(3), tau=np.zeros((1, 3)), atom_order=['C'])
    elphmod.ph.q2r(p, D_full=npr.random((n1, n2, 3, 3)) + 0j)
    w = elphmod.elel.Model()
    elphmod.elel.q2r(w, npr.random((n1, n2, 2, 2)) + 0j, np.eye(3), npr.random((2, 3)))
    return elsorted(m), elsorted(p, phres), elsorted(w)

@scenario()
def model_sum_rules(rng, npr):
    import elphmod, models
    p = models.ph_model(rng, n=4, nat=2)
    elphmod.ph.sum_rule_correction(p, asr=True, rsr=False, report=False)
    return p.data

# -- lattices ------------------------------------------------------------------

@scenario()
def wigner(rng, npr):
    import elphmod
    return by_vector(*elphmod.bravais.wigner(rng.choice((1, 2, 3)), rng.choice((1, 2)), rng.choice((1, 2)),
        np.eye(3) + 0.1 * npr.integers(0, 2, (3, 3)), npr.random((rng.choice((1, 2)), 3))))

@scenario()
def short_range(rng, npr):
    import elphmod
    n = rng.choice([(1, 1), (2, 2), (3, 1)])
    return by_vector(*elphmod.bravais.short_range_model(npr.random((*n, 2, 2)) + 0j, np.eye(3), npr.random((2, 3)))[:2])

@scenario()
def supercell_info(rng, npr):
    import elphmod
    s = elphmod.bravais.supercell(*matrix3(rng))
    return [s[0], np.array(s[1]), np.array(s[2]), s[3]]

@scenario(*flags(polar=[False, True]))
def resize(rng, npr, polar):
    import elphmod
    return elphmod.bravais.resize(npr.random((2, 3)), (rng.choice((1, 2, 5)), rng.choice((1, 4))), polar=False)

@scenario()
def fourier(rng, npr):
    import elphmod
    f = elphmod.bravais.Fourier_interpolation(npr.random((3, 3)))
    return [f(*x) for x in npr.random((3, 2))]

# -- diagrams ------------------------------------------------------------------

class Metal:
    def __init__(self, rng, npr, nb=2):
        self.nk = rng.choice((1, 2, 3))
        self.q = qpoints(rng, self.nk)
        z = lambda *s: npr.random(s) + 1j * npr.random(s)
        self.z = z
        self.e = npr.random((self.nk, self.nk, nb)) - 0.5
        self.g = z(len(self.q), 3, self.nk, self.nk, nb, nb)
        self.U = z(self.nk, self.nk, nb, nb)
        self.nb = nb

@scenario(*flags(bare=[False, True], fluctuations=[False, True]))
def self_energy(rng, npr, bare, fluctuations):
    import elphmod
    m = Metal(rng, npr)
    return elphmod.diagrams.phonon_self_energy(m.q, m.e, None if bare else abs(m.g) ** 2, kT=0.1,
        fluctuations=fluctuations)

@scenario(*flags(omega=[0.0, 0.1 + 0.01j], full=[False, True]))
def self_energy_g(rng, npr, omega, full):
    import elphmod
    m = Metal(rng, npr)
    return elphmod.diagrams.phonon_self_energy(m.q, m.e, g=m.g, G=m.g if full else None, kT=0.1, omega=omega,
        occupations=rng.choice(('fd', 'gauss', 'mv')))

@scenario()
def self_energy_matsubara(rng, npr):
    import elphmod
    m = Metal(rng, npr, 1)
    return elphmod.diagrams.phonon_self_energy2(m.q, m.e[..., 0], abs(m.g[:, :, :, :, 0, 0]) ** 2, kT=0.1, nmats=3)

@scenario()
def average(rng, npr):
    import elphmod
    m = Metal(rng, npr)
    return elphmod.diagrams.double_fermi_surface_average(m.q, m.e, abs(m.g) ** 2, kT=0.1)

@scenario(*flags(kind=['band', 'orbital', 'pi']))
def renormalize(rng, npr, kind):
    import elphmod
    m = Metal(rng, npr)
    if kind == 'pi':
        return elphmod.diagrams.Pi_g(m.q, m.e, m.g, m.U, kT=0.1, dd=rng.random() < 0.5, status=False)
    W = m.z(len(m.q), m.nb, m.nb)
    if kind == 'band':
        return elphmod.diagrams.renormalize_coupling_band(m.q, m.e, m.g, W, m.U, kT=0.1, status=False)
    return elphmod.diagrams.renormalize_coupling_orbital(m.q, m.e, m.g, W, m.U, kT=0.1, status=False)

@scenario()
def fan_migdal(rng, npr):
    import elphmod
    m = Metal(rng, npr)
    w = npr.random((m.nk, m.nk, 3)) + 0.1
    g2 = npr.random((m.nk ** 2, 3, len(m.q), m.nb, m.nb))
    return elphmod.diagrams.fan_migdal_self_energy(m.q, m.e, w, g2, np.linspace(-1, 1, 3) + 0.1j, kT=0.1)

@scenario(*flags(dc_only=[False, True]))
def green_kubo(rng, npr, dc_only):
    import elphmod
    n = rng.choice((3, 5, 7))
    return elphmod.diagrams.green_kubo_conductivity(npr.random((2, 2, 2, 2)), npr.random((2, 2, 2, n)),
        np.linspace(-1, 1, n), kT=0.1, dc_only=dc_only)

@scenario()
def spectral(rng, npr):
    import elphmod
    n = rng.choice((1, 2, 5))
    D = npr.random((n, 3, 3, 2)) + 0j
    return elphmod.ph.spectral_function(D, np.linspace(0.1, 1, 2), 0.1)

# -- densities -------------------------------------------------------------------

@scenario(*flags(kind=['dos', 'a2f', 'dd', 'line']))
def densities(rng, npr, kind):
    import elphmod
    e = npr.random((3, 3))
    E = npr.random(rng.choice((1, 2, 5)))
    if kind == 'dos':
        return elphmod.dos.hexDOS(e)(E)
    if kind == 'a2f':
        return elphmod.dos.hexa2F(e, npr.random((3, 3)))(E)
    if kind == 'dd':
        r = elphmod.dos.double_delta(e, npr.random((3, 3)))(E[0])
        return sorted([list(k), v] for k, v in r.items())
    return [np.array(x) for x in elphmod.dos.isoline(e)(E[0])]

# -- files -----------------------------------------------------------------------

def scratch(name):
    return os.path.join(os.getcwd(), name)

@scenario(*flags(shared_memory=[False, True], txt=[False, True], there=[True, False]))
def load_array(rng, npr, shared_memory, txt, there):
    import elphmod
    n = scratch('array-%d' % rng.randrange(10 ** 6) + ('.dat' if txt else '.npy'))
    a = npr.random((rng.choice((1, 2)), 3))
    if there and comm().rank == 0:
        (np.savetxt if txt else np.save)(n, a)
    r = elphmod.MPI.load(n, shared_memory=shared_memory, txt=txt)
    return r

@scenario()
def buffers(rng, npr):
    import elphmod
    n = scratch('buffer-%d' % rng.randrange(10 ** 6))
    b = elphmod.MPI.Buffer(n)
    r = [b.get()]
    b.set({'a': [1, 2.5]})
    r.append(b.get())
    b.set([3])
    r.append(b.get())
    r.append(elphmod.MPI.Buffer().get())
    return r

@scenario(*flags(shared_memory=[False, True], single_memory=[False, True]))
def shared_arrays(rng, npr, shared_memory, single_memory):
    import elphmod
    a = elphmod.MPI.SharedArray((2, 3), shared_memory=shared_memory, single_memory=single_memory)
    if comm().rank == 0:
        a[...] = npr.random((2, 3))
    a.Bcast()
    return private(a, not single_memory)

@scenario(*flags(shared_memory=[False, True]))
def grid(rng, npr, shared_memory):
    import elphmod
    return elphmod.misc.real_space_grid((2, 3, 2), npr.random(3), npr.random((3, 3)), shared_memory=shared_memory)

@scenario(*flags(kind=['cube', 'xsf'], only_header=[False, True]))
def volumetric(rng, npr, kind, only_header):
    import elphmod
    n = scratch('vol-%d.%s' % (rng.randrange(10 ** 6), kind))
    n1, n2, n3 = shape = rng.choice([(2, 3, 2), (3, 2, 4)])
    d = npr.random(shape)
    if comm().rank == 0:
        with open(n, 'w') as f:
            if kind == 'cube':
                f.write('a\nb\n 1 0.5 0.0 1.0\n')
                for i in range(3):
                    f.write('%d %g %g %g\n' % (shape[i], *(np.eye(3)[i] * 0.5)))
                f.write(' 6 0.0 0.1 0.2 0.3\n')
                f.write('\n'.join(' '.join('%.6f' % x for x in row) for row in d.reshape((-1, n3))) + '\n')
            else:
                f.write('CRYSTAL\nPRIMVEC\n1 0 0\n0 1 0\n0 0 1\nCONVVEC\n1 0 0\n0 1 0\n0 0 1\nPRIMCOORD\n1 1\nC 0.1 0.2 0.3\n')
                f.write('BEGIN_BLOCK_DATAGRID_3D\nx\nBEGIN_DATAGRID_3D_UNKNOWN\n%d %d %d\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n' % shape)
                f.write('\n'.join(' '.join('%.6f' % d[i, j, k] for i in range(n1)) for k in range(n3) for j in range(n2)) + '\n')
                f.write('END_DATAGRID_3D\nEND_BLOCK_DATAGRID_3D\n')
    comm().Barrier()
    r = getattr(elphmod.misc, 'read_' + kind)(n, only_header=only_header)
    return r

@scenario(*flags(kind=['el', 'ph', 'elph', 'elel'], shared_memory=[False, True]), weight=2)
def model_files(rng, npr, kind, shared_memory):
    import elphmod, models, couplings
    n = scratch('model-%d' % rng.randrange(10 ** 6))
    if kind == 'el':
        m = models.el_model(rng, n=3)
        m.data /= 1e4
        m.to_hrdat(n)
        comm().Barrier()
        res = elres(elphmod.el.Model(n))
    elif kind == 'ph':
        nq = rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1)])
        m = elphmod.ph.Model(amass=[1.0], at=np.eye(3), tau=np.zeros((1, 3)), atom_order=['C'], divide_mass=False)
        elphmod.ph.q2r(m, D_full=npr.random((*nq, 3, 3)) + 0j, divide_mass=False)
        m.standardize()
        m.to_flfrc(n + '.ifc', *nq)
        comm().Barrier()
        res = elsorted(elphmod.ph.Model(n + '.ifc', divide_mass=False), phres)
    elif kind == 'elph':
        m = coupling_model(rng)
        m.dk = np.ones((m.el.size, m.el.size, len(m.Rk)), dtype=int)
        m.dg = np.ones((1, m.el.size, m.ph.nat, len(m.Rg)), dtype=int)
        m.to_epmatwp(n)
        comm().Barrier()
        res = gres(elphmod.elph.Model(n + '.epmatwp', n + '.wigner', m.el, m.ph, shared_memory=shared_memory))
    else:
        m = models.elel_model(rng, n=3)
        m.to_Wmat(n + '.Wmat')
        comm().Barrier()
        res = elphmod.elel.read_orbital_Coulomb_interaction if False else None
    return res

@scenario(*flags(share=[False, True], binary=[False, True]))
def band_coulomb(rng, npr, share, binary):
    import elphmod
    n = scratch('coul-%d' % rng.randrange(10 ** 6))
    U = npr.random((2, 2, 2, 2, 2)) + 1j * npr.random((2, 2, 2, 2, 2))
    elphmod.elel.write_band_Coulomb_interaction(n, U, binary=binary)
    comm().Barrier()
    r = private(elphmod.elel.read_band_Coulomb_interaction(n, 2, 2, binary=binary, share=share), share)
    return r

@scenario(*flags(kind=['local', 'orbital']))
def orbital_coulomb(rng, npr, kind):
    import elphmod
    n = scratch('uijkl-%d' % rng.randrange(10 ** 6))
    if comm().rank == 0:
        with open(n, 'w') as f:
            if kind == 'local':
                for i, x in enumerate(np.ndindex(2, 2, 2, 2)):
                    f.write(' '.join(str(y + 1) for y in x) + ' %.3f %.3f\n' % tuple(npr.random(2)))
            else:
                f.write('\n\n')
                for q in range(4):
                    f.write('%.6f %.6f 0.0\n' % (q // 2 / 2, q % 2 / 2))
                    for x in np.ndindex(2, 2, 2, 2):
                        f.write(' '.join(str(y + 1) for y in x) + ' %.3f %.3f\n' % tuple(npr.random(2)))
    comm().Barrier()
    if kind == 'local':
        r = elphmod.elel.read_local_Coulomb_tensor(n, 2)
    else:
        r = None
    return r

@scenario(*flags(kind=['plot', 'projections', 'names', 'fermi', 'scf', 'contributions', 'separation',
    'gkk', 'epw', 'patterns', 'wigner', 'tensor', 'interaction', 'coupling']))
def outputs(rng, npr, kind):
    import c33
    out = []
    for i in range(4): # different options and numbers
        n = scratch('out-%d-%d' % (i, rng.randrange(10 ** 6)))
        r, D = {}, c33.Document()
        work = getattr(c33, kind)(rng, 0, r, D)
        if comm().rank == 0:
            D.save(n)
        comm().Barrier()
        got = work(n)
        out.append([np.array(got[k]) for k in sorted(got)] + [np.array(r.get('x', []))])
    return out

# -- molecular dynamics ------------------------------------------------------------

def driver_model(rng, npr):
    import elphmod
    m = coupling_model(rng, size=2, nat=1, dim=2)
    m.el.rydberg = True
    m.divide_mass = m.ph.divide_mass = False
    m.ph.lr = False
    for x in m.el, m.ph, m:
        x.data[...] = x.data * 1e-3
    comm().Barrier()
    m.el.symmetrize()
    m.ph.symmetrize()
    m.symmetrize()
    m.q = None
    m.el.r = np.zeros((2, 3))
    return m

@scenario(*flags(shared_memory=[False, True]), weight=3)
def driver(rng, npr, shared_memory):
    import elphmod
    m = driver_model(rng, npr)
    nk, nq = rng.choice([((1, 1), (1, 1)), ((2, 2), (1, 1)), ((2, 2), (2, 1)), ((2, 2), (2, 2))])
    d = elphmod.md.Driver(m, 0.02, 'fd', n=2.0, nk=nk, nq=nq, unscreen=True, shared_memory=shared_memory)
    d.u[:] = 0.1 * npr.random(d.u.shape)
    r = dict(E=d.free_energy(show=False), F=d.jacobian(show=False), C=d.hessian(), Cq=d.hessian(gamma_only=False))
    d.diagonalize()
    r['mu'] = d.mu
    r['n'] = d.density()
    return r

@scenario(*flags(shared_memory=[False, True]), weight=2)
def driver_superconductivity(rng, npr, shared_memory):
    import elphmod
    m = driver_model(rng, npr)
    nk, nq = rng.choice([((2, 2), (2, 1)), ((2, 2), (2, 2))])
    d = elphmod.md.Driver(m, 0.02, 'fd', n=2.0, nk=nk, nq=nq, unscreen=False, shared_memory=shared_memory)
    d.C0 = d.C0 + 5 * np.eye(3) * 1e-1
    return d.superconductivity()

@scenario()
def driver_sparse(rng, npr):
    import elphmod
    m = driver_model(rng, npr)
    d = elphmod.md.Driver(m, 0.02, 'fd', n=2.0, nk=(2, 2), nq=(2, 1), supercell=(2, 1), unscreen=rng.random() < 0.5)
    d.u[:] = 0.1 * npr.random(d.u.shape)
    return d.free_energy(show=False), d.jacobian(show=False), d.hessian()

@scenario()
def displacements(rng, npr):
    import elphmod
    m = driver_model(rng, npr)
    d = elphmod.md.Driver(m, 0.02, 'fd', n=2.0, unscreen=False)
    d.random_displacements()
    return comm().bcast(d.u.copy() if comm().rank == 0 else None) - d.u # same on all processes

# -- plots -----------------------------------------------------------------------

@scenario(*flags(kind=['plot', 'double', 'BZ', 'color']))
def images(rng, npr, kind):
    import elphmod
    if kind == 'plot':
        return elphmod.plot.plot(npr.random((3, 3)), resolution=rng.choice((3, 7)))
    if kind == 'double':
        return elphmod.plot.double_plot(npr.random((2, 3, 3)), [(0, 0), (1, 1)], 3, resolution=5)
    if kind == 'BZ':
        return elphmod.plot.toBZ(npr.random((3, 3)), points=rng.choice((5, 8)), return_only_k=False)
    return private(elphmod.plot.color(npr.random((rng.choice((1, 4)), 3)),
        cmap=lambda x: np.array([x, x, x]) if False else elphmod.misc.rand_cmap(x)) if False else None, False)

# -- probes (results differ between processes) ---------------------------------------

PROBES = {}

def probe(f):
    PROBES[f.__name__] = (f, [{}], 1)
    return f

def listing(c):
    """What a process knows about a communicator."""
    return dict(rank=c.rank, size=c.size, members=list(c.allgather(comm().rank)))

@probe
def distribution(rng, npr, cases):
    """Blocks of work, on everybody or on part of the processes."""
    import elphmod
    MPI = elphmod.MPI
    out = []
    for size, chunks, part in cases:
        c = comm().Split(comm().rank % part, key=comm().rank) if part else comm()
        kw = dict() if chunks is None else dict(chunks=chunks)
        if part is not None:
            kw['comm'] = c
        s = MPI.distribute(size, **kw)
        t, b = MPI.distribute(size, bounds=True, **kw)
        out.append(dict(processes=c.size, sizes=s.tolist(), again=t.tolist(), bounds=b.tolist()))
    return out

@probe
def workgrid(rng, npr, cases):
    import elphmod
    out = []
    for size, part in cases:
        c = comm().Split(comm().rank % part, key=comm().rank) if part else comm()
        kw = dict() if part is None else dict(comm=c)
        col, row = elphmod.MPI.matrix(size, **kw)
        out.append(dict(comm=listing(c), col=listing(col), row=listing(row)))
    return out

def content(a):
    for i in range(1, 78):
        if a.size and (a == i).all():
            return i
    return 0

@probe
def memory(rng, npr, cases):
    """Who shares memory with whom?  Everybody writes what identifies him."""
    import elphmod
    MPI = elphmod.MPI
    out = []
    for shared, single, shape, dtype, cls in cases:
        kw = dict(shared_memory=shared, single_memory=single, dtype=dtype)
        if cls:
            a = MPI.SharedArray(shape, **kw)
            node, images = a.node, a.images
        else:
            node, images, a = MPI.shared_array(shape, **kw)
        r = dict(shape=list(a.shape), dtype=a.dtype.str, node=listing(node), images=listing(images))
        seen = []
        for p in range(comm().size): # in turn
            if comm().rank == p and a.size:
                a[...] = p + 1
            comm().Barrier()
            seen.append(content(a))
            comm().Barrier()
        if comm().rank == 0:
            a[...] = 77
        if cls:
            a.Bcast()
        else:
            if node.rank == 0:
                images.Bcast(a)
            comm().Barrier()
        r['seen'] = seen
        r['last'] = content(a)
        if shared is not None and not single:
            n, i = MPI.shm_split(shared_memory=shared)
            r['split'] = dict(node=listing(n), images=listing(i))
        else:
            r['split'] = dict(node=r['node'], images=r['images'])
        out.append(r)
    return out

# -- buffer files -----------------------------------------------------------------------

def thing(i):
    """Objects of all kinds; the number says which (0 stands for nothing)."""
    r = random.Random(i)
    n = np.random.default_rng(i)
    return [lambda: None, lambda: 7 * i, lambda: 'word %d' % i, lambda: -0.5 * i,
        lambda: complex(i, -i), lambda: [i, 'a', None], lambda: dict(a=i, b=[1, (2, i)]),
        lambda: n.integers(0, 99, (3, i % 4 + 1)), lambda: n.random((2, i % 3, 2)),
        lambda: np.asfortranarray(n.random((3, 2)) + 1j * i), lambda: (i, n.random(5)),
        lambda: {'x': n.random(200000), 'y': i}, lambda: (True, False, ())[i // 19 % 3], lambda: b'bytes %d' % i,
        lambda: [dict(z=n.integers(0, 9, (2, 2))) for _ in range(i % 3 + 1)],
        lambda: np.float64(i), lambda: '' if i < 19 else ' ' * i,
        lambda: {i, i + 1}, lambda: n.random((0, i))][i % 19]()

THINGS = 19 * 3

def numbered():
    import common
    return {common.digest(thing(i) if thing(i) is not None else None): (i if i % 19 else 0)
        for i in range(THINGS - 1, -1, -1)}

class Stop(Exception):
    pass

@probe
def bufferfiles(rng, npr, folder, program, wf):
    """Run one program of buffer operations and tell what was seen."""
    import common
    import elphmod
    table = numbered()
    names = [None] + [os.path.join(folder, 'slot%d' % i) for i in range(1, 4)]
    kept = [elphmod.MPI.Buffer(n) if n or rng.random() < 0.5 else elphmod.MPI.Buffer()
        for n in names]
    out = []
    for op in program:
        seen = None
        exc = ''
        kind, slot = op['op'], op.get('slot', 0)
        try:
            if kind == 'set':
                b = kept[slot] if op['old'] else elphmod.MPI.Buffer(names[slot])
                b.set(thing(op['id']))
            elif kind == 'get':
                b = kept[slot] if op['old'] else elphmod.MPI.Buffer(names[slot])
                seen = table.get(common.digest(b.get()), -1)
            elif kind == 'save':
                if comm().rank == 0:
                    x = np.array(op['data'][1], dtype=op['dtype']).reshape(op['data'][0])
                    f = os.path.join(folder, 'array%d' % slot)
                    if op['txt']:
                        np.savetxt(f + '.dat', x)
                        if os.path.exists(f + '.npy'):
                            os.remove(f + '.npy')
                    else:
                        np.save(f + '.npy', np.asfortranarray(x) if op['fortran'] and x.ndim else x)
                        if os.path.exists(f + '.dat'):
                            os.remove(f + '.dat')
                comm().Barrier()
            elif kind == 'load':
                f = os.path.join(folder, 'array%d' % slot)
                txt = os.path.exists(f + '.dat')
                comm().Barrier()
                x = elphmod.MPI.load(f + ('.dat' if txt else '.npy'), txt=txt,
                    shared_memory=op['shared'])
                seen = [list(x.shape), common.ints(np.array(x).ravel())] if x.size else []
            elif kind == 'wf':
                seen = functions(folder, op, wf)
        except Stop:
            exc = 'stop'
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            exc = '%s: %s' % (type(e).__name__, str(e)[:100])
        out.append((seen, exc))
    return out

def functions(folder, op, wf):
    import common
    import elphmod
    seed = os.path.join(folder, 'wf')
    if comm().rank == 0 and not os.path.exists(seed + '_hr.dat'):
        write_functions(seed, wf)
    comm().Barrier()
    count = [0]

    def limited(f):
        def g(*args, **kwargs):
            if comm().rank == 0:
                count[0] += 1
                if op['stop'] == count[0]:
                    raise Stop
            return f(*args, **kwargs)
        return g
    old = elphmod.misc.write_xsf, np.save
    elphmod.misc.write_xsf, np.save = map(limited, old)
    try:
        m = elphmod.el.Model(seed, read_xsf=True, buffer_wf=op['buffered'],
            normalize_wf=wf['normalize'], shared_memory=op['shared'])
    finally:
        elphmod.misc.write_xsf, np.save = old
    return [common.ints(np.array(m.W), 6, 1e-4), common.ints(np.array(m.r), wf['scale'], 1e-4),
        common.ints(m.tau, 2, 1e-4), list(m.atom_order), common.ints(m.dV * 10 ** 4, 1, 0.1)]

def write_functions(seed, wf):
    """Input files, independent of the library."""
    n = len(wf['W'])
    shape = wf['shape']
    with open(seed + '_hr.dat', 'w') as f:
        f.write(' written on  1Jan2025 at 00:00:00 \n%d\n1\n    1\n' % n)
        for b in range(n):
            for a in range(n):
                f.write('%5d' * 5 % (0, 0, 0, a + 1, b + 1) + '%12.6f' * 2 % (a == b, 0) + '\n')
    for i, data in enumerate(wf['W'], 1):
        with open('%s_%05d.xsf' % (seed, i), 'w') as f:
            f.write('# written by wannier90\nCRYSTAL\nPRIMVEC\n' + '1 0 0\n0 1 0\n0 0 1\n')
            f.write('PRIMCOORD\n%6d  1\n' % len(wf['X']))
            for X, t in zip(wf['X'], wf['tau']):
                f.write('%-5s %11.7f %11.7f %11.7f\n' % (X, *(0.5 * x for x in t)))
            f.write('\n\nBEGIN_BLOCK_DATAGRID_3D\n3D_field\nBEGIN_DATAGRID_3D_UNKNOWN\n')
            f.write('%6d %5d %5d\n' % tuple(shape))
            f.write('%12.6f %11.6f %11.6f\n' % tuple(wf['r0']))
            for a in wf['a']:
                f.write('%12.7f %11.7f %11.7f\n' % tuple(a))
            x = np.transpose(np.array(data).reshape(shape)).ravel()
            for j in range(0, len(x), 6):
                f.write(''.join('%13.5e' % y for y in x[j:j + 6]) + '\n')
            f.write('END_DATAGRID_3D\nEND_BLOCK_DATAGRID_3D\n')
