"""Predefined models: symmetries of the formulas and equality with the models."""
from common import *
import importlib, os
import numpy as np
import elphmod

UNIT = 16384
NAMES = dict(chain=('el', 'ph', 'elph'), graphene=('el', 'ph', 'elph', 'elel'),
    tas2=('el', 'ph', 'elph'))
FORMULAS = dict(el='hamiltonian', ph='dynamical_matrix', elph='coupling',
    elel='coulomb_interaction')
BLANK = dict(exc='', name='', part='', x=[], y=[], pos=[], kinds=[], metric=[])

# sites of orbitals and orbitals per site
ORB = dict(chain=([1], 1), graphene=([1, 2], 1), tas2=([1], 3))

def module(name):
    return importlib.import_module('elphmod.models.' + name)

def masses(name):
    m = module(name)
    return dict(chain=lambda: [m.M], graphene=lambda: [m.M] * 2,
        tas2=lambda: [m.M, m.m, m.m])[name]()

def coefficients(f, n, axes):
    """Fourier coefficients of function of given number of wave vectors."""
    values = np.empty((n,) * (2 * axes), dtype=object)
    for i in np.ndindex(*values.shape):
        values[i] = np.asarray(f(*2 * np.pi * np.array(i) / n), dtype=complex)
    values = np.array(values.tolist())
    c = np.fft.fftn(values, axes=range(2 * axes)) / n ** (2 * axes)
    return {tuple((j + n // 2) % n - n // 2 for j in i): c[i] for i in np.ndindex(*(n,) * (2 * axes))}

def formula(name, part, n, rng):
    """Elements of formula, without factors of the masses."""
    m = module(name)
    f = getattr(m, FORMULAS[part])
    z = [rng.uniform(-3, 3) for _ in range(2)]
    root = np.sqrt(np.repeat(masses(name), 3))
    if part == 'elph':
        c = coefficients(lambda q1, q2, k1, k2: f(q1, q2, z[0], k1, k2, z[1]), n, 2)
        return {(i[:2] + (0,), i[2:] + (0,)): v * root[:, None, None] for i, v in c.items()}
    c = coefficients(lambda k1, k2: f(k1, k2, z[0]), n, 1)
    return {i + (0,): v * (np.outer(root, root) if part == 'ph' else 1) for i, v in c.items()}

def elements(name, part, x, rydberg, divide_mass):
    """Elements of model in units of the formula, without masses."""
    root = np.sqrt(np.repeat(masses(name), 3)) if divide_mass else np.ones(3 * len(masses(name)))
    if part == 'elph':
        if getattr(x, 'node', None) is not None and not len(x.data):
            return {}
        return {(tuple(map(int, G)), tuple(map(int, K))): x.data[i, :, j] * root[:, None, None]
            for i, G in enumerate(x.Rg) for j, K in enumerate(x.Rk)}
    f = np.outer(root, root) if part == 'ph' else 1 / elphmod.misc.Ry \
        if part == 'elel' or not rydberg else 1
    return {tuple(map(int, R)): x.data[i] * f for i, R in enumerate(x.R)}

def blocks(name, part, c, scale):
    """List of nonzero blocks by sites."""
    orb, dim = ORB[name]
    nat = len(masses(name))
    out = []
    num = lambda x: ints(np.round(np.real(x) * UNIT / scale))
    cut = lambda x: [num(np.real(x)), num(np.imag(x))]
    for key, v in sorted(c.items()):
        if part == 'elph':
            for s in range(nat):
                for a in range(len(orb)):
                    for b in range(len(orb)):
                        B = v[3 * s:3 * s + 3, a * dim:(a + 1) * dim, b * dim:(b + 1) * dim]
                        if abs(B).max() > 0.5 * scale / UNIT:
                            out.append([[s + 1, list(key[0]), list(key[1]), a + 1, b + 1],
                                [cut(x) for x in B]])
        else:
            d = 3 if part == 'ph' else dim
            for a in range(len(v) // d):
                for b in range(len(v) // d):
                    B = v[a * d:(a + 1) * d, b * d:(b + 1) * d]
                    if abs(B).max() > 0.5 * scale / UNIT:
                        out.append([[list(key), a + 1, b + 1], cut(B)])
    return out

def largest(c):
    return max(float(abs(v).max()) for v in c.values()) or 1.0

def structure(models):
    ph = models[1]
    inv = np.linalg.inv(ph.a)
    frac = lambda r: ints(np.round(np.dot(r, inv) * 3000))
    kinds = sorted(set(zip(ph.atom_order, np.round(ph.M, 6))))
    a = ph.a / np.linalg.norm(ph.a[0])
    return dict(pos=frac(ph.r), kinds=[kinds.index((x, round(m, 6))) + 1
        for x, m in zip(ph.atom_order, ph.M)], metric=ints(np.round(np.dot(a, a.T) * 1000)))

def load(name, prefix, rydberg, divide_mass, models):
    el = elphmod.el.Model(prefix, rydberg=rydberg)
    ph = elphmod.ph.Model('%s.ifc' % prefix, divide_mass=divide_mass)
    elph = elphmod.elph.Model('%s.epmatwp' % prefix, '%s.wigner' % prefix, el, ph,
        divide_mass=divide_mass)
    out = [el, ph, elph]
    if len(models) > 3:
        out.append(elphmod.elel.Model(Wmat='%s.Wmat' % prefix))
    return out

def run(c):
    rng = c.rng
    c.explore('PredefinedDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS Sound Rigid Complete Sensitive\nCONSTANTS\n Seeds <- SomeSeeds\n Reach = %d\n'
        % c.q(1, 2))
    recs = []
    def add(key, kind, name, part, work):
        r = dict(BLANK, key=key, kind=kind, name=name, part=part)
        try:
            r.update(work())
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback; traceback.print_exc()
            r['exc'] = 'raised %s' % type(e).__name__
        recs.append(r)
        return r
    for name, parts in NAMES.items():
        found = {}
        for part in parts:
            for n in c.q((5,), (5, 7)):
                def work():
                    f = formula(name, part, n, rng)
                    found[part] = f, largest(f)
                    return dict(x=blocks(name, part, *found[part]))
                add('%s-%s-formula-%d' % (name, part, n), 'rules', name, part, work)
        for rydberg in False, True:
            for divide_mass in False, True:
                tag = '%s-%d%d' % (name, rydberg, divide_mass)
                prefix = os.path.join(c.scratch, tag)
                made = []
                def work():
                    made.extend(module(name).create(prefix, rydberg=rydberg,
                        divide_mass=divide_mass))
                    return structure(made)
                add(tag, 'structure', name, '', work)
                for i, part in enumerate(parts):
                    if part not in found:
                        continue
                    f, s = found[part]
                    def work():
                        return dict(x=blocks(name, part, f, s), y=blocks(name, part,
                            elements(name, part, made[i], rydberg, divide_mass), s))
                    add('%s-%s' % (tag, part), 'same', name, part, work)
                read = []
                def work():
                    read.extend(load(name, prefix, rydberg, divide_mass, made))
                    return structure(read)
                add(tag + '-file', 'structure', name, '', work)
                for i, part in enumerate(parts):
                    if part not in found:
                        continue
                    f, s = found[part]
                    def work():
                        return dict(x=blocks(name, part, f, s), y=blocks(name, part,
                            elements(name, part, read[i], rydberg, divide_mass), s))
                    add('%s-%s-file' % (tag, part), 'same', name, part, work)
    c.judge('PredefinedTrace', recs, verdict='OfPredefined')
