"""Random small electron-phonon models and their projection."""
import numpy as np
from common import *
from models import *
import elphmod

def elph_model(rng, nat=None, size=None, dup=False, density=0.25, shared=False,
        nrg=None, nrk=None, cplx=True, span=1, dim=3):
    el = el_model(rng, size=size or rng.randint(1, 2))
    ph = ph_model(rng, nat=nat or 1)
    elph = elphmod.elph.Model(el=el, ph=ph, divide_mass=rng.random() < 0.5,
        divide_ndegen=rng.random() < 0.5)
    Rg = lattice_vectors(rng, nrg or rng.randint(1, 4), span=span, dim=dim)
    Rk = lattice_vectors(rng, nrk or rng.randint(1, 4), span=span, dim=dim)
    if dup:
        Rg = Rg + [rng.choice(Rg)]
        Rk = Rk + [rng.choice(Rk)]
    data = values(rng, (len(Rg), ph.size, len(Rk), el.size, el.size),
        density=density, cplx=True)
    if not cplx:
        data = data.real + 0j
    fill(elph, Rg, Rk, data, shared)
    return elph

def fill(elph, Rg, Rk, data, shared=False):
    """Set up a coupling from given data without reading any file."""
    elph.Rg = np.array(Rg, dtype=int).reshape((-1, 3))
    elph.Rk = np.array(Rk, dtype=int).reshape((-1, 3))
    elph.dg = elph.dk = None
    elph.node, elph.images, elph.data = elphmod.MPI.shared_array(data.shape,
        dtype=complex, shared_memory=shared)
    elph.data[...] = data
    elph.gq = np.empty((elph.ph.size, len(Rk), elph.el.size, elph.el.size),
        dtype=complex)
    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
    elph.q = None

def cobserve(m, op, **args):
    rg, rk = ints(m.Rg), ints(m.Rk)
    raw = []
    if not rg or not rk:
        rg, rk = [], []
    else:
        for i in zip(*np.nonzero((abs(m.data) > 1e-9) | ~np.isfinite(m.data))):
            z = complex(m.data[i])
            g, x, k, a, b = map(int, i)
            raw.append([g + 1, x, k + 1, a, b] + ints([z.real, z.imag]))
    d = dict(op=op, exc='', rg=rg, rk=rk, raw=raw, nph=int(m.ph.size),
        nel=int(m.el.size), flags=[bool(m.divide_mass), bool(m.divide_ndegen)])
    d.update(args)
    return d

CBLANK = dict(rg=[], rk=[], raw=[], nph=0, nel=0, flags=[], cells=[], M=[],
    gamma=[], p=0, q=0, q4=[], k4=[], qs=[], nk=[], U=[], u=[], sq=False)

def fresh(m):
    """The same model, newly built."""
    f = elphmod.elph.Model(el=m.el, ph=m.ph, divide_mass=m.divide_mass,
        divide_ndegen=m.divide_ndegen)
    fill(f, m.Rg.copy(), m.Rk.copy(), m.data.copy())
    return f

def observe_only(m):
    o = cobserve(m, 'scribble')
    o.pop('op'), o.pop('exc')
    return o

def capply(m, step):
    op = step['op']
    if op == 'super':
        s = m.supercell(*map(tuple, step['M']),
            shared_memory=step.get('shared', False))
        return s, cobserve(s, op, M=step['M'], cells=[ints(c) for c in s.cells])
    if op == 'sparse':
        s = m.supercell(*map(tuple, step['M']), sparse=True)
        gam = []
        for x in range(len(s.gs)):
            gam += [[x] + e for e in gz(s.gs[x].toarray(), False)]
        return m, dict(CBLANK, op=op, exc='', M=step['M'],
            cells=[ints(c) for c in s.cells], gamma=gam)
    if op in ('std', 'sym'):
        p, q = step.get('p', 0), step.get('q', 0)
        kw = dict(eps=p / q) if q else {}
        if op == 'sym':
            if q:
                m.standardize(symmetrize=True, **kw)
            else:
                m.symmetrize()
        else:
            m.standardize(**kw)
        return m, cobserve(m, op, p=p, q=q)
    if op == 'eval':
        m.last = m.g(*[x * np.pi / 2 for x in step['q4'] + step['k4']])
        g = m.last
        return m, dict(CBLANK, op=op, exc='', q4=step['q4'], k4=step['k4'],
            gamma=gz(g))
    if op == 'get':
        g = m.gR(*step['q4'], *step['k4'])
        return m, dict(CBLANK, op=op, exc='', q4=step['q4'], k4=step['k4'],
            gamma=gz(g))
    if op == 'sample':
        nk, qs = step['nk'], step['qs']
        d = len(nk)
        cplx = lambda U: np.array(U, dtype=float)[..., 0] + 1j * np.array(U)[..., 1]
        kw = {}
        if step['U']:
            U = cplx(step['U'])
            kw['U'] = U.reshape((*nk, *U.shape[1:]))
        if step['u']:
            kw['u'] = cplx(step['u'])
        kw['squared'] = step['sq']
        q = [tuple(x * np.pi / 2 for x in q[:d]) for q in qs]
        if step.get('transform'):
            g = elphmod.elph.sample(m.g, q, nk)
            before = digest(g)
            g2 = elphmod.elph.transform(g, q, nk[0], **kw)
            if digest(g) != before:
                raise RuntimeError('transform modifies its argument')
            g = g2
        elif step.get('infer'):
            g = elphmod.elph.sample(m.g, q, **kw)
        else:
            g = m.sample(q, nk if not step.get('scalar') else nk[0], **kw,
                shared_memory=step.get('shared', False))
        return m, dict(CBLANK, **dict(step, exc='', gamma=gz(g)))
    if op == 'scribble':
        if getattr(m, 'last', None) is not None:
            m.last[...] = 4711.0
        return m, dict(CBLANK, op=op, exc='', **observe_only(m))
    if op == 'rebuild':
        nq, nk = step['nq'], step['nk']
        rng = np.random.default_rng(step['seed'])
        g = step['unit'] * (rng.integers(-4, 5, (*nq, m.ph.size, *nk,
            m.el.size, m.el.size)) + 1j * rng.integers(-4, 5, (*nq, m.ph.size,
            *nk, m.el.size, m.el.size)))
        r = np.array(step['r'], dtype=float) if step.get('r') else None
        before = digest(g)
        elphmod.elph.q2r(m, nq, nk, g, r, divide_mass=m.divide_mass,
            shared_memory=step.get('shared', False))
        if digest(g) != before:
            raise RuntimeError('q2r modifies its argument')
        return m, cobserve(m, op)
    if op == 'asr':
        m.asr(report=False)
        return m, cobserve(m, op)
    if op == 'fresh':
        f = fresh(m)
        q = [x * step.get('scale', np.pi / 2) for x in step['q4']]
        k = [x * step.get('scale', np.pi / 2) for x in step['k4']]
        kw = dict(elbnd=step.get('elbnd', False), phbnd=step.get('phbnd', False))
        d = m.g(*q, *k, **kw) - f.g(*q, *k, **kw)
        return m, dict(CBLANK, op=op, exc='', gamma=gz(d * 1e6 if not np.all(
            abs(d) < 1e-9) else 0 * d))
    if op == 'bands':
        q = [x * np.pi / 2 for x in step['q4']]
        k = [x * np.pi / 2 for x in step['k4']]
        elbnd, phbnd = step['elbnd'], step['phbnd']
        Hk, Hkq = m.el.H(*k), m.el.H(*np.add(k, q))
        Dq = m.ph.D(*q)
        s = step['s']
        r = dict(step)
        for name, A, f in (('k', Hk, s), ('kq', Hkq, s), ('q', Dq, 1)):
            E, U = np.linalg.eigh(A)
            # fix the phases
            for n in range(len(E)):
                j = np.argmax(abs(U[:, n]) > 1e-3)
                U[:, n] *= abs(U[j, n]) / U[j, n]
            r['E' + name if name != 'q' else 'wq'] = ints(E)
            r['U' + name if name != 'q' else 'uq'] = ints(U + 0j, np.sqrt(f))
            r['H' + name if name != 'q' else 'Dq'] = gz(A)
        g = m.g(*q, *k, elbnd=elbnd, phbnd=phbnd)
        g = abs(g) ** 2 * (s ** 2 if elbnd else 1)
        return m, dict(CBLANK, **dict(r, exc='', gamma=gz(g, False)))
    if op == 'clear':
        m.clear()
        return m, cobserve(m, op)
    raise MachineryError(op)

def crun(key, m, plan, tr):
    rec = dict(key=key, tr=tr, start=cobserve(m, 'start'), steps=[])
    for step in plan:
        if callable(step):
            step = step(m)
        ok, v = call(capply, m, step)
        if ok == 'exc':
            rec['steps'].append(dict(CBLANK, **dict(step, exc=v)))
            break
        m, o = v
        rec['steps'].append(o)
    return rec
