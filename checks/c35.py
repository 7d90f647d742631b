"""Summaries of models: decay with distance, sums, frequencies."""
from common import *
from models import *
from couplings import *
import os
import numpy as np
import elphmod

BLANK = dict(exc='', R=[], B=[], C=[], a=[], r=[], got=[], points=[], nq=0)

def pairs(x):
    return [[int(round(z.real)), int(round(z.imag))] for z in np.ravel(x)]

def entries(d, x, unit=1.0):
    d, x = np.asarray(d), np.asarray(x)
    assert d.shape == x.shape and d.ndim == 1
    return [[p, q] for p, q in zip(ints((d / unit) ** 2, tol=1e-4), ints(x ** 2, tol=1e-3))]

def force_constants(ph, root):
    C = ph.data.reshape((len(ph.R), ph.nat, 3, ph.nat, 3)) * root[None, :, None, None, None] \
        * root[None, None, None, :, None]
    return ints(np.round(C.transpose(0, 1, 3, 2, 4).reshape((len(ph.R), ph.nat, ph.nat, 9)), 6))

def run(c):
    rng = c.rng
    c.explore('SummariesDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS Expected Even NoSwap\nCONSTANT Depth = %d\n' % c.q(3, 5))
    recs = []
    def add(kind, i, work):
        r = dict(BLANK, key='%s-%d' % (kind, i), kind=kind)
        try:
            work(r)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback; traceback.print_exc()
            r['exc'] = 'raised %s' % type(e).__name__
        recs.append(r)
    for i in range(c.q(60, 500)):
        # couplings
        m = elph_model(rng, nat=rng.choice((1, 1, 2)), nrg=rng.randint(1, 4), nrk=rng.randint(1, 5))
        data = values(rng, m.data.shape, unit=1, density=0.3)
        for x in range(len(m.Rg)):
            if rng.random() < 0.2:
                data[x] = 0.0
        for x in range(len(m.Rk)):
            if rng.random() < 0.2:
                data[:, :, x] = 0.0
        m.data[...] = data
        def electron(r):
            r.update(R=ints(m.Rk), a=ints(m.ph.a), B=[pairs(data[:, :, j]) for j in range(len(m.Rk))])
            r['got'] = entries(*m.decay_epmate(), elphmod.misc.a0)
        def displacement(r):
            r.update(R=ints(m.Rg), a=ints(m.ph.a), B=[pairs(data[j]) for j in range(len(m.Rg))])
            d, g = m.decay_epmatp()
            r['got'] = entries(d / elphmod.misc.a0, g)
        add('electron', i, electron)
        add('displacement', i, displacement)

        # hoppings in files with degeneracies, lengths in angstrom
        el = el_model(rng)
        a = [rng.randint(1, 4) for _ in range(3)]
        def hopping(r):
            name = os.path.join(c.scratch, 'decay')
            H = values(rng, el.data.shape, unit=1, density=0.6)
            if rng.random() < 0.3:
                H[rng.randrange(len(H))] = 0.0
            elphmod.el.write_hrdat(name, el.R, H * elphmod.misc.Ry / 10,
                [rng.choice((1, 2, 3)) for _ in el.R])
            r.update(R=ints(el.R), B=[pairs(x) for x in H], a=ints(np.diag(a)))
            d, h = elphmod.el.decayH(name, ibrav=8, a=a[0], b=a[1], c=a[2], bohr=False)
            r['got'] = entries(d, h * 10)
        add('hopping', i, hopping)

        # force constants with a history
        ph = ph_model(rng, nat=rng.choice((1, 2, 2, 3)))
        ph.Z = ph.Q = ph.eps = None
        ph.lr = False
        root = np.ones(ph.nat)
        if ph.divide_mass:
            ph.M = np.array([float(rng.choice((1, 4, 9, 16))) for _ in range(ph.nat)])
        state = []
        if rng.random() < 0.4: # determined on a mesh
            nq = [rng.randint(1, 3), rng.randint(1, 2), 1]
            D = np.zeros((*nq, ph.nat, 3, ph.nat, 3), dtype=complex)
            local = rng.random() < 0.4
            for x in np.ndindex(*nq):
                if x == (0, 0, 0) or not local:
                    d = values(rng, (3 * ph.nat,) * 2, unit=6, cplx=False)
                    D[x] = (d + d.T).reshape(D[x].shape)
                else:
                    D[x] = D[0, 0, 0]
            D = D.reshape((*nq, 3 * ph.nat, 3 * ph.nat))
            try: # inversion symmetric: elements are multiples of 1 / prod(nq)
                for x in np.ndindex(*nq):
                    y = tuple(-j % n for j, n in zip(x, nq))
                    D[x] = (D[x] + D[y]) if x <= y else D[y]
                elphmod.ph.q2r(ph, D_full=D * 36 * np.prod(nq), divide_mass=False)
            except Exception as e:
                recs.append(dict(BLANK, key='q2r-%d' % i, kind='bonds', exc='raised ' + type(e).__name__))
                continue
            ph.divide_mass = False
        steps = []
        for _ in range(rng.randint(0, 3)):
            op = rng.choice(('standardize', 'symmetrize', 'order', 'shift', 'supercell', 'eps'))
            steps.append(op)
            if op == 'standardize':
                ph.standardize()
            elif op == 'eps':
                ph.standardize(eps=rng.choice((1e-9, 0.3)))
            elif op == 'symmetrize' and len(ph.R) < 30:
                ph.data = ph.data * 2
                ph.symmetrize()
            elif op == 'order':
                o = list(range(ph.nat))
                rng.shuffle(o)
                ph.order_atoms(*o)
            elif op == 'shift' and ph.nat > 1:
                s = rng.randrange(ph.nat)
                ph.shift_atoms(slice(s, s + 1), (rng.randint(-1, 1), rng.randint(-1, 1), 0))
            elif op == 'supercell' and ph.nat < 3:
                ph = ph.supercell(rng.randint(1, 2), 1, 1)
        root = np.sqrt(ph.M) if ph.divide_mass else np.ones(ph.nat)
        data = ph.data.copy()
        if abs(data - np.round(data)).max() > 1e-6 or abs(data).max() > 6000 or len(ph.R) > 60:
            continue # not representable
        def bonds(r):
            r.update(R=ints(ph.R), a=ints(ph.a, tol=1e-6), r=ints(ph.r, tol=1e-6), C=force_constants(ph, np.ones(ph.nat)))
            r['got'] = entries(*ph.decay())
        def strength(r):
            ph.nq = (rng.randint(1, 3), rng.randint(1, 3), 1)
            r.update(R=ints(ph.R), r=ints(ph.r, tol=1e-6), C=force_constants(ph, root))
            r['got'] = ints([ph.sum_force_constants() * 2 * np.prod(ph.nq)], tol=1e-3)
        add('bonds', i, bonds)
        if not (ph.R == 0).all(axis=1).sum() > 1: # on-site elements stored once
            add('strength', i, strength)

        # frequencies from files with dynamical matrices
        def frequencies(r):
            nat, nq = rng.randint(1, 3), rng.randint(1, 4)
            r['B'] = []
            name = os.path.join(c.scratch, 'dyn')
            mass = [float(rng.choice((1, 4, 9))) for _ in range(nat)]
            atoms = ['H' if x == 1 else 'He' if x == 4 else 'Be' for x in mass]
            q = [[rng.randint(0, 9), rng.randint(0, 9), 0] for _ in range(nq)]
            elphmod.ph.write_q(name + '0', [[x / 8 for x in v] for v in q], 2)
            for iq in range(nq):
                w = [rng.randint(-9, 9) for _ in range(3 * nat)]
                D = np.diag([x * abs(x) * mass[j // 3] for j, x in enumerate(w)]) * 1e-4 + 0j
                if rng.random() < 0.5 and w[0] != w[1]: # two coupled directions
                    t = np.eye(3 * nat)
                    t[:2, :2] = np.array([[3, 4], [-4, 3]]) / 5
                    D = t @ D @ t.T
                elphmod.ph.write_flfrc('%s%d' % (name, iq + 1), (np.array([q[iq]]) / 8.0, np.array([D])),
                    mass, np.eye(3) * 5, np.arange(3.0 * nat).reshape((nat, 3)), atoms)
                r['B'].append(w)
            r.update(R=q)
            elphmod.ph.fildyn_freq(name)
            words = iter(open(name + '.freq').read().replace(',', ' ').replace('=', ' ').split())
            head = []
            for w in words:
                if w == '/':
                    break
                head.append(w)
            assert head[0] == '&plot' and int(head[2]) == 3 * nat, head
            r['nq'] = int(head[4])
            got, points = [], []
            F = 1e-2 * elphmod.misc.Ry / elphmod.misc.cmm1
            for iq in range(nq):
                points.append(ints([8 * float(next(words)) for _ in range(3)], tol=1e-4))
                got.append(ints([float(next(words)) / F for _ in range(3 * nat)], tol=1e-3))
            assert next(words, None) is None
            r.update(points=points, got=got)
        add('frequencies', i, frequencies)
    c.judge('SummariesTrace', recs, verdict='OfSummaries')
