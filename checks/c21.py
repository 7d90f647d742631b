"""Calls leave their arguments unchanged and repeat with equal results."""
from common import *
from models import *
from couplings import *
import itertools
import numpy as np
import os
import re
import elphmod
import elphmod.models.chain, elphmod.models.graphene

B, D, P, E, M = (elphmod.bravais, elphmod.dispersion, elphmod.diagrams,
    elphmod.elph, elphmod.misc)

NK, NB, NM, NQ = 4, 2, 3, 2

HIDDEN = {'node', 'images', 'gq', 'q', 'comm', 'el', 'ph', 'Rk0', 'G', 'z', 'b'}
MODULES = [elphmod.bravais, elphmod.dispersion, elphmod.diagrams, elphmod.el,
    elphmod.ph, elphmod.elph, elphmod.elel, elphmod.misc, elphmod.dos,
    elphmod.eliashberg, elphmod.occupations, elphmod.plot,
    elphmod.models.graphene, elphmod.models.chain]

def content(x):
    """Digest of what can be observed of an object."""
    if isinstance(x, (elphmod.el.Model, elphmod.ph.Model, elphmod.elph.Model,
            elphmod.elel.Model)):
        return digest({k: v for k, v in sorted(vars(x).items())
            if k not in HIDDEN or isinstance(x, elphmod.ph.Model)
            and k in ('q', 'z', 'b', 'G')})
    return digest(x)

def surroundings():
    """Digest of the global state of the library."""
    out = []
    for m in MODULES:
        for k, v in sorted(vars(m).items()):
            if isinstance(v, (int, float, str, list, tuple, dict, np.ndarray)) \
                    and not k.startswith('_'):
                out.append((m.__name__, k, digest(v)))
    out.append(digest(np.geterr()))
    return digest(out)

# -- objects ---------------------------------------------------------------

def unitary(g, n, m):
    return np.linalg.qr(g.normal(size=(n, m, NB, NB))
        + 1j * g.normal(size=(n, m, NB, NB)))[0]

def layout(rng, x):
    """The same array in another memory layout."""
    k = rng.randrange(4)
    if k == 0:
        return np.asfortranarray(x)
    if k == 1: # view of every second element of a larger array
        y = np.zeros((*x.shape, 2), x.dtype)
        y[..., 0] = x
        return y[..., 0]
    return x

def cx(g, *shape):
    return g.normal(size=shape) + 1j * g.normal(size=shape)

MAKE = {
    'e': lambda r, g: np.sort(g.normal(size=(NK, NK, NB)) * 0.1, axis=2),
    'e1': lambda r, g: g.normal(size=(NK, NK)) * 0.1,
    'esym': lambda r, g: np.array([[sum(np.cos(2 * np.pi * x / 6) for x in (i, j, i - j))
        for j in range(6)] for i in range(6)]),
    'emesh': lambda r, g: np.array(r.sample(range(100), 36)).reshape((6, 6)) / 10,
    'emesh2': lambda r, g: np.array(r.sample(range(100), 36)).reshape((6, 6)) / 10,
    'w2': lambda r, g: g.uniform(0.1, 1, size=(NQ, NM)) * 1e-3,
    'wk': lambda r, g: g.uniform(0.1, 1, size=(NK, NK, NM)) * 1e-1,
    'g2': lambda r, g: g.uniform(size=(NQ, NM, NK, NK, NB, NB)) * 1e-3,
    'g1': lambda r, g: g.uniform(size=(NQ, NM, NK, NK, 1, 1)) * 1e-3,
    'g2k': lambda r, g: g.uniform(size=(NQ, NM, NK, NK, NB, NB)) * 1e-3,
    'g': lambda r, g: cx(g, NQ, NM, NK, NK, NB, NB),
    'gg': lambda r, g: cx(g, NQ, NM, NK, NK, NB, NB),
    'gconst': lambda r, g: cx(g, NM, NB, NB),
    'U': lambda r, g: unitary(g, NK, NK),
    'u': lambda r, g: np.linalg.qr(cx(g, NQ, NM, NM))[0],
    'W4': lambda r, g: cx(g, NQ, NB, NB, NB, NB),
    'W': lambda r, g: (lambda w: w + w.swapaxes(1, 2).conj())(cx(g, NQ, NB, NB)),
    'Wfull': lambda r, g: cx(g, NK, NK, NB, NB, NB, NB),
    'qs': lambda r, g: [tuple(2 * np.pi * r.randrange(NK) / NK for _ in range(2))
        for _ in range(NQ)],
    'qarr': lambda r, g: np.array([[2 * np.pi * r.randrange(NK) / NK
        for _ in range(2)] for _ in range(NQ)]),
    'q3': lambda r, g: np.array([[2 * np.pi * r.randrange(4) / 4 for _ in range(3)]
        for _ in range(5)]),
    'kpath': lambda r, g: np.cumsum(g.uniform(size=(7, 3)) * 0.3, axis=0),
    'v2': lambda r, g: np.array([r.random(), r.random()]),
    'v3': lambda r, g: np.array([r.random() for _ in range(3)]),
    'l2': lambda r, g: [r.random(), r.random()],
    'a': lambda r, g: np.array([[3.0, 0, 0.1], [-1, 2.5, 0], [0, 0.3, 5]]),
    'rs': lambda r, g: g.uniform(size=(2, 3)),
    'rs2': lambda r, g: g.uniform(size=(2, 3)),
    'points': lambda r, g: np.array([[r.randrange(3) * 0.5 for _ in range(3)]
        for _ in range(8)]),
    'shape': lambda r, g: [r.randint(2, 5), r.randint(2, 5)],
    'plist': lambda r, g: [r.choice('GMK') for _ in range(4)],
    'pvec': lambda r, g: [[r.randrange(3) / 2 + 0.1 * i for _ in range(3)]
        for i in range(4)],
    'celldm': lambda r, g: [6.0, 1.2, 1.7, 0.1, 0.2, 0.3],
    'mesh2': lambda r, g: cx(g, 4, 4),
    'mesh2r': lambda r, g: g.normal(size=(4, 4)),
    'mesh6': lambda r, g: g.normal(size=(6, 6)),
    'wedge': lambda r, g: g.normal(size=(len(B.irreducibles(4)), 4, 4)),
    'image': lambda r, g: g.uniform(size=(9, 12)),
    'rgb': lambda r, g: g.uniform(size=(9, 12, 3)) * 255,
    'hop': lambda r, g: cx(g, NB, NB, 2, 3, 1),
    'phid': lambda r, g: g.normal(size=(2, 2, 2, 1, 1, 3, 3)),
    'Hk': lambda r, g: (lambda h: h + h.swapaxes(2, 3).conj())(cx(g, 3, 2, NB, NB)),
    'Dk': lambda r, g: cx(g, 2, 2, 1, 3, 3),
    'Wk': lambda r, g: cx(g, 2, 2, NB, NB),
    'eigs': lambda r, g: np.sort(g.normal(size=(8, 3)), axis=1),
    'vecs': lambda r, g: np.linalg.qr(cx(g, 8, 3, 3))[0],
    'vel': lambda r, g: g.normal(size=(NK, NK, 2, NB, NB)) + 0j,
    'spec': lambda r, g: g.uniform(size=(NK, NK, NB, 11)),
    'omega': lambda r, g: np.linspace(-0.5, 0.5, 11),
    'omegac': lambda r, g: np.linspace(-0.5, 0.5, 5) + 0.05j,
    'x': lambda r, g: g.normal(size=7) * 3,
    'xs': lambda r, g: np.sort(g.normal(size=7)),
    'lam': lambda r, g: np.array([0.5, 0.8, 1.2]),
    'amass': lambda r, g: [12.0, 1.0],
    'dyn': lambda r, g: cx(g, 3, 6, 6),
    'Z': lambda r, g: g.normal(size=(2, 3, 3)),
    'vecsR': lambda r, g: np.array([[r.randint(-1, 1) for _ in range(3)] for _ in range(6)]),
    'blocks': lambda r, g: [slice(0, 1), slice(1, 2)],
    'nums': lambda r, g: [r.randint(0, 3) for _ in range(3)],
    'rho': lambda r, g: cx(g, 5),
    'gvec': lambda r, g: g.normal(size=(5, 3)) * 2,
    'alph': lambda r, g: 1.5,
    'pwi': lambda r, g: dict(calculation='scf', ibrav=0, celldm=np.array([4.0]),
        nat=2, at=['C', 'H'], r=g.uniform(size=(2, 3)), coords='crystal',
        ntyp=2, at_species=['C', 'H'], mass=[12.0, 1.0], pp=['C.upf', 'H.upf'], k_points=[2, 2, 1, 0, 0, 0], ktyp='automatic',
        cell_units='angstrom', r_cell=np.eye(3) * 4, ecutwfc=30.0),
    'cubic': lambda r, g: [r.random() for _ in range(6)],
    'ints': lambda r, g: [r.randrange(2, 4), r.randrange(1, 4), 1],
    'el': lambda r, g: el_model(r, size=NB),
    'ph': lambda r, g: ph_model(r, nat=1),
    'phhex': lambda r, g: elphmod.ph.Model(amass=[r.randint(1, 9)],
        at=np.array([[2.0, 0, 0], [-1, 3 ** 0.5, 0], [0, 0, 5]]), tau=np.zeros((1, 3)),
        atom_order=['C']),
    'ph2': lambda r, g: ph_model(r, nat=2),
    'elel': lambda r, g: elel_model(r),
    'elph': lambda r, g: elph_model(r, size=NB, nat=1),
    'chain': lambda r, g: elphmod.models.chain.create(rydberg=True, divide_mass=False)[2],
}

FLAVOURS = ['fd', 'gauss', 'mv', 'mp', 'lorentz']

# -- calls -----------------------------------------------------------------

CALLS = {}

FIXED = {'coupling.sample', 'elph.q2r', 'ph.q2r', 'ph.q2r.wedge', 'Driver', 'k2r', 'elel.q2r'}

def call_(name, *kinds, own=(), gives=None, par=lambda rng: {}, weight=1):
    def register(f):
        CALLS[name] = dict(f=f, kinds=kinds, own=own, gives=gives, par=par, weight=weight)
        return f
    return register

def simple(name, f, *kinds, **kw):
    call_(name, *kinds, **kw)(lambda *a, **k: f(*a, **k))

def occ(rng):
    return dict(kT=rng.choice((0.025, 0.05, 0.3)), occupations=rng.choice(FLAVOURS))

def o2(rng):
    return dict(occ(rng), occupations=rng.choice(FLAVOURS))

def some(**options):
    return lambda rng: {k: rng.choice(v) for k, v in options.items()}

# lattices

simple('rotate', B.rotate, 'v2', par=some(angle=(0.3, 1.0)))
simple('rotate.list', B.rotate, 'l2', par=some(angle=(0.3, 1.0)))
simple('rotate.3', B.rotate, 'v3', par=some(angle=(0.3, 1.0), two_dimensional=(False,)))
call_('primitives', 'celldm', par=some(ibrav=(1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91,
    10, 11, 12, -12, 13, -13, 14), bohr=(True, False)))(
    lambda celldm, **k: B.primitives(celldm=celldm, **k))
call_('primitives.abc', 'cubic', par=some(ibrav=(1, 4, 5, 7, 8, 12, 14), bohr=(True, False)))(
    lambda x, **k: B.primitives(a=1 + x[0], b=1 + x[1], c=1 + x[2], cosbc=x[3] / 9,
    cosac=x[4] / 9, cosab=x[5] / 9, **k))
call_('primitives.cell', 'pwi', par=some(bohr=(True, False)))(
    lambda s, **k: B.primitives(**s, **k))
call_('translations', par=some(angle=(60, 90, 120), angle0=(0, 30),
    two_dimensional=(True, False)))(B.translations)
call_('reciprocals', 'a')(lambda a: B.reciprocals(*a))
call_('volume', 'a')(lambda a: B.volume(*a))
call_('supercell', 'nums', 'nums')(
    lambda n, m: B.supercell(2, [0, 2, 1], [1, 0, m[0] + n[0] + 1]))
call_('to_supercell', 'nums', par=some(N=(2, 3)))(
    lambda R, N: B.to_supercell(R, B.supercell(N, 2, [0, 1, 2])))
call_('images', par=some(k1=(0, 1, 2), k2=(0, 1, 3), nk=(4, 6), angle=(60, 90, 120)))(B.images)
call_('irreducibles', par=some(nk=(3, 4, 6), angle=(60, 90, 120)))(
    lambda **k: sorted(B.irreducibles(**k)))
call_('symmetries', 'esym', par=some(unity=(True, False), epsilon=(0.0, 1e-9),
    angle=(60, 90)))(lambda x, **k: list(B.symmetries(x, **k)))
call_('complete', 'esym', par=some(angle=(60, 120)))(
    lambda x, angle: (lambda y: (B.complete(y, angle=angle), y))(np.where(
    np.isin(np.arange(36), [i * 6 + j for i, j in B.irreducibles(6, angle=angle)]
    ).reshape((6, 6)), x, np.nan)))
call_('complete_k', 'wedge')(lambda w: B.complete_k(w, 4))
call_('stack', 'nums', par=some(period=(3.0, 5.0)))(lambda x, **k: B.stack(*x, **k))
call_('linear_interpolation', 'mesh2r', par=some(angle=(60, 90, 120)))(
    lambda x, **k: B.linear_interpolation(x, **k)(0.3, np.array([1.7, 2.2, 5.0])))
call_('linear_interpolation.arrays', 'mesh2r', 'v2', 'v2', par=some(angle=(60, 90, 120)))(
    lambda x, i, j, **k: B.linear_interpolation(x, **k)(i, j))
call_('linear_interpolation.period', 'mesh2r')(
    lambda x: B.linear_interpolation(x, period=3.0)(0.3, 0.4))
call_('linear_interpolation.polar', 'mesh2')(
    lambda x: B.linear_interpolation(x, polar=True)(0.3, 0.4))
call_('resize', 'mesh2r', 'shape', par=some(angle=(60, 90), periodic=(True, False)))(
    lambda x, n, **k: B.resize(x, shape=n, **k))
call_('Fourier_interpolation', 'mesh2r', par=some(angle=(60, 90, 120), sign=(-1, 1)))(
    lambda x, **k: B.Fourier_interpolation(x, **k)(0.3, np.array([0.1, 0.2])))
call_('Fourier_interpolation.dict', 'mesh2r', par=some(angle=(60, 90, 120)))(
    lambda x, **k: B.Fourier_interpolation(x, function=False, **k))
call_('squared_distance', 'v2', 'v2', par=some(angle=(60, 90, 120)))(B.squared_distance)
call_('to_Voronoi', par=some(k1=(0, 1, 2), k2=(0, 3), nk=(4, 5), angle=(60, 90, 120)))(
    lambda **k: sorted(B.to_Voronoi(**k)))
call_('wigner_2d', par=some(nk=(2, 3, 4), angle=(60, 90, 120), dk1=(0.0, 0.3)))(B.wigner_2d)
call_('wigner', 'a', 'rs', par=some(nr=(1, 2, 3), sgn=(1, -1)))(
    lambda a, r, nr, sgn: B.wigner(nr, 2, 1, a, r, sgn=sgn))
call_('wigner.two', 'a', 'rs', 'rs2', par=some(nr=(1, 2), sgn=(1, -1)))(
    lambda a, r, s, nr, sgn: B.wigner(nr, 2, 1, a, r, s, sgn=sgn))
call_('short_range_model', 'phid', 'a', 'rs', par=some(sgn=(1, -1), divide_ndegen=(True, False)))(
    B.short_range_model)
call_('path', 'plist', par=some(N=(5, 10), ibrav=(4,), moveG=(0, 0.1)))(B.path)
call_('path.vec', 'pvec', 'a', par=some(N=(5, 10), moveG=(0, 0.1)))(
    lambda p, a, **k: B.path(p, recvec=a, **k))
call_('path.array', 'points', 'celldm', par=some(N=(5,), ibrav=(4, 6, 8), qe=(True, False)))(
    lambda p, celldm, **k: B.path(p, celldm=celldm, **k))
call_('path.pwi', 'pvec', 'pwi', par=some(N=(5,)))(lambda p, s, **k: B.path(p, **dict(s, **k)))
call_('GMKG', par=some(N=(6, 12), corner_indices=(True, False), mesh=(True, False),
    angle=(60, 120), straight=(True, False), lift_degen=(True, False)))(B.GMKG)
call_('BZ', par=some(angle=(60, 90, 120), angle0=(0, 30)))(B.BZ)
call_('point_on_path', 'v3', 'rs')(lambda v, r: B.point_on_path(v, r[0], r[1]))
call_('crystal_to_cartesian', 'rs', 'a')(lambda r, a: B.crystal_to_cartesian(r, *a))
call_('cartesian_to_crystal', 'rs', 'a')(lambda r, a: B.cartesian_to_crystal(r, *a))
call_('mesh', 'ints', par=some(flat=(True, False)))(lambda n, flat: B.mesh(*n, flat=flat))
for name in 'pwi',:
    call_('write_' + name, name)(lambda s: written(B.write_pwi)(s))

# diagonalisation

OFF = dict(broadcast=(True, False), shared_memory=(False, True))

call_('dispersion', 'el', 'kpath', par=some(vectors=(True, False), gauge=(True, False),
    hermitian=(True, False), **OFF))(
    lambda m, k, **kw: D.dispersion(hermitised(m.H), k, **kw))
call_('dispersion.order', 'el', 'kpath', par=some(vectors=(True,), order=(True,),
    by_mean=(True, False)))(lambda m, k, **kw: D.dispersion(hermitised(m.H), k, **kw))
call_('dispersion.ph', 'ph', 'q3', par=some(vectors=(True, False)))(
    lambda m, k, **kw: D.dispersion(hermitised(m.D), k, **kw))
call_('dispersion_full', 'el', par=some(vectors=(True, False), gauge=(True, False), order=(True, False)))(
    lambda m, **kw: D.dispersion_full(c6(m), 4, **kw))
call_('dispersion_full_nosym', 'el', par=some(vectors=(True, False), gauge=(True, False)))(
    lambda m, **kw: D.dispersion_full_nosym(hermitised(m.H), 3, **kw))
call_('sample', 'el', 'q3')(lambda m, q: D.sample(m.H, q))
call_('sample.ph', 'ph', 'q3')(lambda m, q: D.sample(m.D, q))
call_('sample.list', 'el', 'qs')(lambda m, q: D.sample(m.H, q))
call_('band_order', 'eigs', 'vecs', par=some(by_mean=(True, False), dv=(float('inf'), 1.0)))(
    D.band_order)
call_('map_dispersions', 'vecs', 'vecs')(lambda v, w: D.map_dispersions(v[0], w[1]))
call_('unfolding_weights', 'q3', 'vecsR', 'dyn', 'dyn', 'blocks')(
    lambda k, R, U0, U, b: D.unfolding_weights(k[:3], R[:2], U0[:, :1], U[:, :2, :4], None, b))
call_('ph.polarization', 'dyn', 'qs')(lambda e, q: elphmod.ph.polarization(e, q))
call_('ph.spectral_function', 'dyn', 'omega')(
    lambda D, w: elphmod.ph.spectral_function(D[:, 1:4, :3].transpose(1, 2, 0), w[:3], 0.1))
call_('sgnsqrt', 'mesh2r')(elphmod.ph.sgnsqrt)

def hermitised(f):
    def h(*k):
        x = f(*k)
        return (x + x.T.conj()) / 2
    h.size = f.__self__.size
    return h

def c6(m):
    def h(k1=0, k2=0, k3=0):
        c = np.cos(k1) + np.cos(k2) + np.cos(k1 + k2)
        x = m.data[0].real
        return (x + x.T) * c + np.diag(np.arange(len(x)))
    h.size = m.size
    return h

# diagrams

call_('susceptibility', 'e1', par=o2)(
    lambda e, **k: [P.susceptibility(e, **k)(*q) for q in ((0, 0), (np.pi, np.pi / 2))])
call_('susceptibility2', 'e1', par=some(kT=(0.1, 0.2), hyb_height=(0.0, 0.1)))(
    lambda e, **k: P.susceptibility2(e, nmats=20, **k)(np.pi, np.pi / 2))
call_('polarization', 'e', 'U', 'qs', par=o2)(
    lambda e, U, q, **k: [P.polarization(e, U, **k)(*p) for p in q])
call_('polarization.subspace', 'e', 'U', 'qs', 'g2', par=o2)(
    lambda e, U, q, g2, **k: P.polarization(e, U, subspace=g2[0, 0, :, :, 0, :] > 5e-4, **k)(*q[0]))
call_('phonon_self_energy', 'qs', 'e', 'g2', par=o2)(P.phonon_self_energy)
call_('phonon_self_energy.array', 'qarr', 'e', 'g2', par=o2)(P.phonon_self_energy)
call_('phonon_self_energy.fluct', 'qs', 'e', 'g2', par=o2)(
    lambda q, e, g2, **k: P.phonon_self_energy(q, e, g2, fluctuations=True, **k))
call_('phonon_self_energy.Delta', 'qs', 'e', 'g2', par=lambda r: dict(o2(r),
    Delta=0.1, Delta_diff=r.random() < 0.5))(P.phonon_self_energy)
call_('phonon_self_energy.g', 'qs', 'e', 'g', par=lambda r: dict(o2(r),
    symmetrize=r.random() < 0.5))(lambda q, e, g, **k: P.phonon_self_energy(q, e, g=g, **k))
call_('phonon_self_energy.gG', 'qs', 'e', 'g', 'gg', par=lambda r: dict(o2(r),
    diagonal=r.random() < 0.5, omega=r.choice((0.0, 0.1 + 0.01j))))(
    lambda q, e, g, G, **k: P.phonon_self_energy(q, e, g=g, G=G, **k))
call_('phonon_self_energy.U', 'qs', 'e', 'g', 'gg', par=o2)(
    lambda q, e, g, G, **k: P.phonon_self_energy(q, e, g=g, G=G, U=0.1, **k))
call_('fermi_shift', 'e', 'g', par=o2)(
    lambda e, g, **k: P.phonon_self_energy_fermi_shift(e, g[0].copy(), **k))
call_('phonon_self_energy2', 'qarr', 'e1', 'g1')(
    lambda q, e, g2: P.phonon_self_energy2(q, e, g2[..., 0, 0], kT=0.1, nmats=10))
call_('renormalize_coupling_band', 'qs', 'e', 'g', 'W', 'U', par=o2)(
    P.renormalize_coupling_band)
call_('renormalize_coupling_band.sub', 'qs', 'e', 'g', 'W', 'U', par=o2)(
    lambda *a, **k: P.renormalize_coupling_band(*a, nbnd_sub=1, **k))
call_('renormalize_coupling_orbital', 'qs', 'e', 'g', 'W', 'U', par=o2)(
    P.renormalize_coupling_orbital)
call_('renormalize_coupling_orbital.full', 'qs', 'e', 'g', 'W4', 'U', par=o2)(
    P.renormalize_coupling_orbital)
call_('renormalize_coupling_band.full', 'qs', 'e', 'g', 'W4', 'U', par=o2)(
    P.renormalize_coupling_band)
call_('Pi_g', 'qs', 'e', 'g', 'U', par=lambda r: dict(o2(r), dd=r.random() < 0.5))(P.Pi_g)
call_('double_fermi_surface_average', 'qs', 'e', 'g2', par=o2)(P.double_fermi_surface_average)
call_('double_fermi_surface_average.0', 'qs', 'e', par=o2)(P.double_fermi_surface_average)
call_('grand_potential', 'e', par=some(kT=(0.025, 0.1), occupations=('fd', 'gauss', 'mv', 'mp')))(P.grand_potential)
call_('first_order', 'e', 'g', par=o2)(lambda e, g, **k: P.first_order(e, g[0], **k))
call_('first_order.U', 'e', 'g', 'U', par=o2)(
    lambda e, g, U, **k: P.first_order(e, g[0], U=U, **k))
call_('triangle', 'qs', 'e', 'g', 'gg', par=lambda r: dict(o2(r),
    fluctuations=r.random() < 0.5))(
    lambda q, e, g, G, **k: P.triangle(q[0], q[1], e, g[0, 0], G[0, 0], G[1, 0], **k))
call_('fan_migdal', 'qs', 'e', 'wk', 'omegac', 'g2', par=o2)(
    lambda k, e, w, omega, g2, **kw: P.fan_migdal_self_energy(k, e, w,
    np.tile(g2.swapaxes(1, 1), (1, 1, 1, 1, 1, 1)), omega, **kw))
call_('green_kubo', 'vel', 'spec', 'omega', par=lambda r: dict(o2(r), dc_only=r.random() < 0.5))(
    P.green_kubo_conductivity)

# densities of states, superconductivity, occupations

call_('hexDOS', 'emesh', 'x')(lambda e, x: np.array([elphmod.dos.hexDOS(e)(y + 5) for y in x]))
call_('hexDOS.array', 'emesh', 'x')(lambda e, x: elphmod.dos.hexDOS(e, 0.0, 9.0)(x))
call_('hexa2F', 'emesh', 'emesh2', 'x')(lambda e, c, x: elphmod.dos.hexa2F(e, c)(x))
call_('double_delta', 'emesh', 'emesh2', par=some(z=(0.5, 4.35)))(
    lambda x, y, z: elphmod.dos.double_delta(x, y)(z))
call_('double_delta.f', 'emesh', 'emesh2', 'mesh6', par=some(z=(0.5, 4.35)))(
    lambda x, y, f, z: elphmod.dos.double_delta(x, y, f)(z))
call_('isoline', 'emesh', par=some(z=(0.5, 4.35)))(lambda e, z: elphmod.dos.isoline(e)(z))
call_('Tc', 'lam', 'lam', par=some(mustar=(0.1, 0.0), correct=(True, False)))(
    lambda l, w, **k: elphmod.eliashberg.Tc(l[0], w[1], w2nd=w[2], **k))
for correct in False, True:
    call_('McMillan%d' % correct, 'e', 'w2', 'g2', par=some(kT=(0.05, 0.2), f=('fd', 'gauss')))(
        lambda e, w2, g2, correct=correct, **k: elphmod.eliashberg.McMillan(2, e, w2, g2,
        correct=correct, **k))
for name in sorted(vars(elphmod.occupations)):
    f = getattr(elphmod.occupations, name)
    if callable(f) and getattr(f, '__module__', '') == 'elphmod.occupations' and name.startswith((
            'bose', 'fermi', 'gauss', 'marz', 'meth', 'doub', 'two', 'lor', 'heav')):
        if 'term' in name or 'matsubara' in name or isinstance(f, type):
            continue
        if callable(f):
            simple('occupations.' + name, f, 'x', weight=0.1)
call_('find_Fermi_level', 'e', par=some(f=('fd', 'gauss', 'mv'), n=(1.0, 0.7, 1.3)))(
    lambda e, n, **k: elphmod.occupations.find_Fermi_level(n, e, kT=0.05, **k))
call_('find_Fermi_level_simple', 'e', par=some(f=('fd', 'gauss'), n=(1.0, 0.7)))(
    lambda e, n, **k: elphmod.occupations.find_Fermi_level_simple(n, e, kT=0.05, **k))

# helpers and plots

call_('group', 'points')(M.group)
call_('differential', 'xs')(M.differential)
call_('minimum', 'v3', 'v3')(lambda x, y: M.minimum(x[0], y[0], x[1] + 2, y[1] - 9, x[2] + 4, y[2]))
call_('vector_index', 'vecsR')(lambda R: M.vector_index(R, R[3]))
call_('split', par=some(expr=('a,b', '{a,b}{c,d}', 'x{1,2}y{3,4}')))(lambda expr: list(M.split(expr)))
call_('real_space_grid', 'v3', 'a', 'ints', par=some(shared_memory=(True, False)))(
    lambda r0, a, n, **k: M.real_space_grid(n, r0, a, **k))
call_('plot', 'mesh2r', par=some(angle=(60, 90), return_k=(True, False)))(
    lambda x, **k: elphmod.plot.plot(x, resolution=6, **k))
call_('toBZ', 'mesh2r', par=some(angle=(60, 90, 120), outside=(0.0, 1.0), even=(True, False)))(
    lambda x, **k: elphmod.plot.toBZ(x, points=6, **k))
call_('rectify', 'image')(lambda x: elphmod.plot.rectify(x, 0.5, 0.5,
    (0.1, 0.1), (0.8, 0.2), (0.1, 0.9), (0.8, 0.8)))
call_('adjust_pixels', 'rgb')(lambda x: elphmod.plot.adjust_pixels(x, [0, 4, 11], [0.0, 0.7, 1.0], 10))
call_('arrange', 'rgb', 'rgb')(lambda x, y: elphmod.plot.arrange([x, y, x]))
call_('compline', 'x', 'xs', 'rs2')(
    lambda x, y, w: elphmod.plot.compline(x, y, np.abs(np.vstack([w.ravel()[:6], w.ravel()[:6]])).T[:1].repeat(7, 0)))
call_('hartree_energy', 'rho', 'gvec')(
    lambda rho, g: elphmod.elel.hartree_energy(rho, g, len(rho), 3.0))

# matrices and couplings

call_('transform', 'g', 'qs', 'U', 'u', par=some(squared=(True, False), **OFF))(
    lambda g, q, U, u, **k: E.transform(g, q, (NK, NK), U, u, **k))
call_('transform.none', 'g', 'qs', par=some(squared=(True, False), **OFF))(
    lambda g, q, **k: E.transform(g, q, (NK, NK), **k))
call_('transform.el', 'g', 'qs', 'U', par=some(squared=(True, False), **OFF))(
    lambda g, q, U, **k: E.transform(g, q, (NK, NK), U, **k))
call_('transform.ph', 'g', 'qs', 'u', par=some(squared=(True, False)))(
    lambda g, q, u, **k: E.transform(g, q, (NK, NK), u=u, **k))
call_('coupling.sample', 'elph', 'qs', 'U', 'u', par=some(squared=(True, False), **OFF))(
    lambda m, q, U, u, **k: m.sample(q, (NK, NK), U, u, **k))
call_('coupling.sample.raw', 'elph', 'qarr', par=some(squared=(True, False)))(
    lambda m, q, **k: m.sample(q, (2, 2), **k))
call_('coupling.sample.mesh', 'elph', par=some(squared=(True, False)))(
    lambda m, **k: E.sample(m.g, B.mesh(2, 2).reshape((-1, 2)), (2, 2), **k))
call_('coupling.sample.stored', 'gconst', 'qarr', par=some(squared=(True, False)))(
    lambda g, q, **k: E.sample(lambda *a, **o: g, q, (2, 2), **k))
call_('H', 'el', 'v3')(lambda m, k: m.H(*k))
call_('v', 'el', 'v3')(lambda m, k: (m.v(*k), np.array(m.H(*k))) if hasattr(m, 'cells0') else m.H(*k))
call_('t', 'el', 'nums')(lambda m, R: m.t(*R))
call_('D', 'ph', 'v3')(lambda m, q: m.D(*q))
call_('C', 'ph', 'nums')(lambda m, R: m.C(*R))
call_('W', 'elel', 'v3')(lambda m, q: m.W(*q))
call_('WR', 'elel', 'nums')(lambda m, R: m.WR(*R))
call_('g', 'elph', 'v3', 'v3', par=some(elbnd=(False, True), phbnd=(False, True)), weight=4)(
    lambda m, q, k, **kw: m.g(*q, *k, **kw))
call_('gR', 'elph', 'nums', 'nums')(lambda m, q, k: m.gR(*q, *k))

SUPER = some(N1=(1, 2), N2=(1, 2, (1, 1, 0)), N3=(1,))
for kind in 'el', 'ph', 'ph2', 'elel', 'elph':
    call_(kind + '.supercell', kind, gives=kind, par=SUPER, weight=2)(
        lambda m, **k: m.supercell(**k))
    call_(kind + '.standardize', kind, own=(kind,), par=some(eps=(0.0, 0.1)))(
        lambda m, **k: m.standardize(**k))
    if kind != 'elel':
        call_(kind + '.symmetrize', kind, own=(kind,))(lambda m: m.symmetrize())
for kind in 'el', 'ph', 'ph2':
    call_(kind + '.unit_cell', kind, gives=kind)(
        lambda m: m.supercell(2, 1, 1).unit_cell())
    call_(kind + '.unit', kind, gives=kind)(
        lambda m: m.unit_cell() if m.size <= 12 and len(m.cells) > 1 else None)
    call_(kind + '.sparse', kind)(lambda m: [x for x in [m.supercell(2, 1, 1, sparse=True)]
        for x in ([m.Hs.toarray(), x.Hs().toarray()] if hasattr(m, 'Hs') else [1])])
call_('el.order', 'el', own=('el',))(lambda m: m.order_orbitals(*range(m.size)[::-1]))
call_('el.shift', 'el', 'nums', own=('el',))(lambda m, S: m.shift_orbitals(0, S))
call_('ph.order', 'ph2', own=('ph2',))(lambda m: m.order_atoms(*range(m.nat)[::-1]))
call_('ph.shift', 'ph2', 'nums', own=('ph2',))(lambda m, S: m.shift_atoms(0, S))
call_('sum_rule_correction', 'ph2', own=('ph2',), par=some(asr=(True,), rsr=(False,)))(
    lambda m, **k: elphmod.ph.sum_rule_correction(m, report=False, **k))
call_('elph.asr', 'elph', own=('elph',))(lambda m: m.asr(report=False))
call_('ph.decay', 'ph2')(lambda m: m.decay() if hasattr(m, 'l') else 0)
call_('sum_force_constants', 'ph2')(lambda m: m.sum_force_constants() if getattr(m, 'nq', None) is not None else 0)
call_('k2r', 'el', 'Hk', 'a', 'rs', own=('el',), par=some(fft=(True,), rydberg=(True, False)))(
    lambda m, *a, **k: elphmod.el.k2r(m, *a, **k))
call_('ph.q2r', 'ph', 'Dk', own=('ph',), par=some(divide_mass=(True, False), apply_asr_simple=(True, False)))(
    lambda m, D, **k: elphmod.ph.q2r(m, D_full=D, nq=D.shape[:3], **k))
call_('ph.q2r.wedge', 'phhex', 'Dk', own=('phhex',), par=some(divide_mass=(True, False)))(
    lambda m, D, **k: elphmod.ph.q2r(m, D_irr=D[:1, 0, 0] + D[:1, 0, 0].swapaxes(1, 2).conj(),
    q_irr=np.array([[0.0, 0.0]]), nq=1, **k))
call_('elel.q2r', 'elel', 'Wk', 'a', 'rs', own=('elel',))(
    lambda m, *a: elphmod.elel.q2r(m, *a))
call_('elph.q2r', 'elph', 'g', own=('elph',), par=some(divide_mass=(True, False)))(
    lambda m, g, **k: E.q2r(m, (2, 1), (NK, NK), g[:2], r=np.zeros((m.el.size, 3)), **k))
call_('Model.elph', 'elph', par=some(divide_mass=(True, False)))(
    lambda m, **k: vars(E.Model(el=m.el, ph=m.ph, **k)).get('divide_mass'))
call_('Model.ph', 'a', 'rs', 'amass', 'dyn', gives='ph2', par=some(divide_mass=(True, False)))(
    lambda a, r, amass, D, **k: made(elphmod.ph.Model(amass=amass, at=a, tau=r,
    atom_order=['C', 'H'], **k), D))
call_('Model.ph.lr', 'a', 'rs', 'amass', 'Z', 'q3', par=some(divide_mass=(True, False), apply_zasr=(True, False)))(
    lambda a, r, amass, Z, q, **k: (lambda m: [m.D_lr(*x) for x in q])(elphmod.ph.Model(amass=amass,
    at=a, tau=r, zeu=Z, epsil=np.eye(3) * 2, atom_order=['C', 'H'], **k)))
call_('asr', 'phid', own=('phid',))(elphmod.ph.asr)
call_('zasr', 'Z', own=('Z',))(elphmod.ph.zasr)
call_('divide_by_mass', 'dyn', 'amass', own=('dyn',))(elphmod.ph.divide_by_mass)

def made(m, D):
    elphmod.ph.q2r(m, D_full=D[:2].reshape((2, 1, 1, 6, 6)), nq=(2, 1, 1))
    return m

# files

FILE = ['']

def written(f):
    def g(*a, **k):
        f(FILE[0], *a, **k)
        out = []
        d = os.path.dirname(FILE[0])
        for x in sorted(os.listdir(d)):
            with open(os.path.join(d, x), 'rb') as y: # (without date and time)
                out.append((x, digest(re.sub(rb' written on .*', b'', y.read()))))
            os.remove(os.path.join(d, x))
        return out
    return g

call_('write_hrdat', 'vecsR', 'hop')(written(lambda f, R, h: elphmod.el.write_hrdat(f, R,
    np.reshape(h, (NB, NB, 6)).transpose(2, 0, 1))))
call_('write_bands', 'kpath', 'eigs')(written(lambda f, k, b: elphmod.el.write_bands(f, k, b[:7].T)))
call_('write_q', 'q3')(written(lambda f, q: elphmod.ph.write_q(f, q, 2)))
call_('write_flfrc', 'phid', 'amass', 'a', 'rs')(written(lambda f, p, m, a, r:
    elphmod.ph.write_flfrc(f, p, m, a, r, ['C', 'H'])))
call_('write_flfrc.Z', 'phid', 'amass', 'a', 'rs', 'Z')(written(lambda f, p, m, a, r, Z:
    elphmod.ph.write_flfrc(f, p, m, a, r, ['C', 'H'], 0.3, np.eye(3), Z)))
call_('write_xsf', 'v3', 'a', 'rs', 'phid')(written(lambda f, r0, a, r, x:
    M.write_xsf(f, r0, a, ['C', 'H'], r, x[0, 0, :, 0, 0])))
call_('write_band_Coulomb', 'rho')(written(lambda f, x:
    elphmod.elel.write_band_Coulomb_interaction(f, x.reshape((1, 5, 1, 1, 1)))))
call_('write_data', 'g')(written(lambda f, g: E.write_data(f, g)))
call_('to_hrdat', 'el')(written(lambda f, m: m.to_hrdat(f)))
call_('to_Wmat', 'elel')(written(lambda f, m: m.to_Wmat(f)))
call_('to_flfrc', 'ph2')(written(lambda f, m: m.to_flfrc(f, 2, 2, 2) if 1 else 0))
call_('to_pwi', 'ph2', 'pwi')(written(lambda f, m, s: m.to_pwi(f, **s)))

@call_('Driver', 'chain', par=some(kT=(0.02, 0.05), f=('fd', 'gauss'), n=(1.0, 0.8), N=(2, 3)))
def driver(m, kT, f, n, N):
    d = elphmod.md.Driver(m, kT=kT, f=f, n=n, nk=(4,), supercell=(N,))
    out = [d.free_energy(show=False), d.jacobian(show=False)]
    d.u[:] = np.linspace(-0.01, 0.01, len(d.u))
    out += [d.free_energy(show=False), d.jacobian(show=False), d.hessian()]
    el, ph = d.electrons(), d.phonons()
    return out + [el.data, ph.data]

NAMES = sorted(CALLS)
WEIGHTS = [CALLS[x]['weight'] for x in NAMES]

# -- histories -------------------------------------------------------------

def history(rng, key, names, length, scratch):
    g = np.random.default_rng(rng.randrange(2 ** 62))
    pool, kind = {}, {}
    def add(k, obj):
        name = '%s#%d' % (k, sum(x.startswith(k + '#') and '.' not in x for x in pool))
        pool[name], kind[name] = obj, k
        if isinstance(obj, elphmod.elph.Model):
            pool[name + '.el'], kind[name + '.el'] = obj.el, 'el' if k == 'elph' else ''
            pool[name + '.ph'], kind[name + '.ph'] = obj.ph, '' if k != 'elph' \
                else 'ph' if obj.ph.nat == 1 else 'ph2'
        return name
    plan = []
    while len(plan) < length:
        if plan and rng.random() < 0.45:
            plan.append(rng.choice(plan))
        else:
            name = rng.choices(names, [CALLS[x]['weight'] for x in names])[0]
            plan.append((name, CALLS[name]['par'](rng)))
    for name, _ in plan:
        for k in CALLS[name]['kinds']:
            if k + '#0' not in pool:
                obj = MAKE[k](rng, g)
                if isinstance(obj, np.ndarray):
                    obj = layout(rng, obj)
                add(k, obj)
    def heap():
        h = {x: content(y) for x, y in pool.items()}
        h['library'] = surroundings()
        return h
    FILE[0] = os.path.join(scratch, 'files', 'x')
    os.makedirs(os.path.dirname(FILE[0]), exist_ok=True)
    start = dict(op='start', heap=heap(), exc='')
    steps = []
    for name, par in plan:
        spec = CALLS[name]
        args = []
        for k in spec['kinds']:
            fit = sorted(x for x in pool if kind[x] == k)
            # mostly the objects as first made, sometimes derived ones
            args.append(k + '#0' if name in FIXED else fit[0] if rng.random() < 0.3 else
                newest if (newest := next((x for x in list(pool)[::-1] if kind[x] == k), None))
                and rng.random() < 0.5 else rng.choice(fit))
        own = []
        for k in spec['own']:
            x = args[spec['kinds'].index(k)]
            own.append(x)
        full = []
        for x in args:
            full.append(x)
            for y in x + '.el', x + '.ph':
                if y in pool:
                    full.append(y)
        objs = [pool[x] for x in args]
        np.random.seed(0)
        ok, r = call(lambda: spec['f'](*objs, **par), timeout=60)
        e = dict(f=name, par=json.dumps(par, default=str), args=full, own=own,
            res='', new='', exc='' if ok == 'ok' else r)
        if ok == 'ok':
            e['res'] = content(r)
            if spec['gives'] and r is not None and sum(k == spec['gives'] for k in kind.values()) < 4 \
                    and getattr(r, 'el', r).size <= 8:
                e['new'] = add(spec['gives'], r)
        e['heap'] = heap()
        steps.append(e)
        if e['exc']:
            break
    return dict(key=key, start=start, steps=steps)

def run(c):
    for copy in 'TRUE',:
        c.explore('PurityDesign', 'SPECIFICATION Spec\nINVARIANT Pure\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\nNames = {1, 2, 3}\nCells = {1, 2, 3}\nValues = 3\nDepth = %d\nCopy = %s\n'
            % (c.q(6, 7), copy))
    # the frame condition is violated by objects that share their memory
    rc, out, _, _ = c.tlc('PurityDesign', 'SPECIFICATION Spec\nINVARIANT Pure\n'
        'CHECK_DEADLOCK FALSE\nCONSTANTS\nNames = {1, 2, 3}\nCells = {1, 2, 3}\nValues = 3\n'
        'Depth = 4\nCopy = FALSE\n')
    if 'Invariant Pure is violated' not in out:
        raise MachineryError('sharing of memory is not noticed by the specification')
    recs = []
    # every call repeatedly on its own, then mixed histories
    plans = [('single-%s-%d' % (x, i), [x], 5) for x in NAMES for i in range(c.q(1, 4))]
    for i in range(c.q(150, 1500)):
        plans.append(('mixed-%d' % i, NAMES, 30))
    models = [x for x in NAMES if set(CALLS[x]['kinds']) & {'el', 'ph', 'ph2', 'elph', 'elel'}]
    for i in range(c.q(150, 1500)):
        plans.append(('models-%d' % i, models, 25))
    for key, names, length in plans:
        if c.only and not fnmatch.fnmatch(key, c.only):
            continue
        rng = random.Random('%s-%s' % (c.seed, key))
        recs.append(history(rng, key, names, length, c.scratch))
    for i in range(0, len(recs), 500):
        c.judge('PurityTrace', recs[i:i + 500], 'Agree', histories=True)
