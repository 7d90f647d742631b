import math
from common import *
import numpy as np
import elphmod
b, a0 = elphmod.bravais, elphmod.misc.a0
IBRAVS = [1, 2, 3, -3, 4, 5, -5, 6, 7, 8, 9, -9, 91, 10, 11, 12, -12, 13, -13, 14]
TURNS = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, -3, 5), (-5, 12, 13), (-3, -4, 5)]

def run(c):
    rng = c.rng
    c.explore('CrystalDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS Multiplicity Symmetric Positive Cubes Zone\n')
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(dict(key='%s-%s' % (kind, key), kind=kind, exc=''), **kw)
        ok, v = call(work)
        r.update(v if ok == 'ok' else dict(exc=v))
        recs.append(r)
    def proper(x):
        A = np.array([[1, x[2], x[1]], [x[2], 1, x[0]], [x[1], x[0], 1]]) * 1.0
        return A
    for i in range(c.q(200, 3000)):
        ibrav = IBRAVS[i % len(IBRAVS)]
        e = [rng.randint(1, 6) for _ in range(3)]
        while True:
            x = [rng.randint(-8, 8) for _ in range(3)]
            if ibrav in (5, -5) and not -4 <= x[0] <= 9:
                continue
            if ibrav == 14 and np.linalg.det(proper([t / 10 for t in x])) < 1e-3:
                continue
            break
        bohr, dm = rng.random() < 0.5, rng.random() < 0.5
        kw = dict(ibrav=ibrav)
        cos = [t / 10 for t in x]
        if dm:
            d = [float(e[0]), e[1] / e[0], e[2] / e[0], 0.0, 0.0, 0.0]
            if ibrav in (5, -5):
                d[3] = cos[0]
            elif ibrav in (12, 13):
                d[3] = cos[2]
            elif ibrav in (-12, -13):
                d[4] = cos[1]
            elif ibrav == 14:
                d[3:] = cos
            kw['celldm'] = rng.choice((list, np.array))(d)
        else:
            kw.update(a=float(e[0]), b=float(e[1]), c=float(e[2]), cosbc=cos[0], cosac=cos[1], cosab=cos[2])
            if ibrav in (5, -5):
                kw['cosab'] = cos[0]
        if bohr:
            kw['bohr'] = True
        if rng.random() < 0.3:
            kw.update(prefix='x', nat=3)
        if ibrav == 8 and rng.random() < 0.5:
            del kw['ibrav']
        def work():
            ref = digest(kw)
            for _ in range(rng.randint(1, 2)):
                A = b.primitives(**kw)
            if digest(kw) != ref:
                raise RuntimeError('argument modified')
            A = np.array(A) * (1 / a0 if dm and not bohr else a0 if bohr and not dm else 1)
            z = dict(gram=ints(A @ A.T, 40), hand=int(np.sign(np.linalg.det(A))), signs=np.where(abs(A) < 1e-9, 0, np.sign(A)).astype(int).tolist())
            z['twice'] = ints(2 * A) if ibrav in (1, 2, 3, -3, 6, 7, 8, 9, -9, 91, 10, 11) else []
            # all vectors equivalent with respect to <111>
            z['diagonal'] = bool(np.allclose(A, A.T) and np.ptp(np.diag(A)) < 1e-9 and
                np.ptp([A[0, 1], A[0, 2], A[1, 2]]) < 1e-9 and A.sum() > 0)
            return z
        rec('primitives', i, work, ibrav=ibrav, e=e, x=x if ibrav not in (5, -5) else [x[0]] * 3)
    for i in range(c.q(40, 400)):
        units = rng.choice(('angstrom', 'bohr', 'alat', 'Angstrom', 'ALAT', '{bohr}'))
        cell = [[rng.randint(-5, 5) for _ in range(3)] for _ in range(3)]
        bohr, dm = rng.random() < 0.5, rng.random() < 0.5
        e = rng.randint(1, 5)
        kw = dict(ibrav=0, r_cell=np.array(cell, float) if rng.random() < 0.5 else [[float(t) for t in r] for r in cell], cell_units=units, bohr=bohr)
        if 'alat' in units.lower():
            kw.update(dict(celldm=[float(e)]) if dm else dict(a=float(e)))
        f = a0 if bohr else 1 # to angstrom
        if 'bohr' in units:
            f /= a0
        elif 'alat' in units.lower():
            f /= e * (a0 if dm else 1)
        def work():
            ref = digest(kw)
            A = b.primitives(**kw)
            if digest(kw) != ref:
                raise RuntimeError('argument modified')
            return dict(got=ints(A * f))
        rec('free', i, work, cell=cell)
    for i in range(c.q(60, 800)):
        n = rng.choice((2, 3))
        while True:
            A = np.array([[rng.randint(-4, 4) for _ in range(n)] for _ in range(n)])
            det = int(round(np.linalg.det(A)))
            if det:
                break
        F = A.astype(float)
        def work():
            ref = digest(F)
            B = b.reciprocals(*F)
            if digest(F) != ref:
                raise RuntimeError('argument modified')
            return dict(got=ints(np.array(B), det))
        rec('reciprocals', i, work, a=A.tolist(), det=det)
        m = rng.choice((1, 2, 3)) if n == 3 else 2
        V = A[:m, :].tolist() if m > 1 else [[abs(A[0, 0])] * 3]
        V = [[int(t) for t in v] for v in V]
        rec('volume', i, lambda: dict(got=ints(b.volume(*np.array(V, float)))), a=V)
    for i in range(c.q(30, 300)):
        co, si, h = rng.choice(TURNS)
        v = [rng.randint(-5, 5) for _ in range(rng.choice((2, 3)))]
        def work():
            w = np.array(v, float) if rng.random() < 0.5 else v
            args = (w, math.atan2(si, co))
            return dict(got=ints(b.rotate(*args) if len(v) == 2 else b.rotate(*args, two_dimensional=False), h))
        rec('rotate', i, work, v=v, c=co, s=si, h=h)
        angle, planar = rng.choice((60, 90, 120)), rng.random() < 0.5
        def work():
            kw = dict(angle=angle, angle0=math.degrees(math.atan2(si, co)))
            if not planar:
                kw['two_dimensional'] = False
            a1, a2 = b.translations(**kw)
            return dict(a1=ints(a1, h), cos=ints(np.dot(a1, a2), 2), norm=ints(np.dot(a2, a2)),
                turn=int(np.sign(a1[0] * a2[1] - a1[1] * a2[0])) if abs(a2[2:]).sum() < 1e-9 else 0)
        rec('translations', i, work, c=co, s=si, angle=angle, planar=planar)
        A = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)]
        while round(np.linalg.det(A)) == 0:
            A = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)]
        p = [[rng.randint(-5, 5) for _ in range(3)] for _ in range(rng.randint(1, 4))]
        back = rng.random() < 0.5
        def work():
            F, R = np.array(A, float), np.array(p, float)
            if not back:
                return dict(cartesian=ints(b.crystal_to_cartesian(R, *F)), crystal=p)
            R = R @ F
            return dict(cartesian=ints(R), crystal=ints(b.cartesian_to_crystal(R, *F)))
        rec('cartesian', i, work, a=A)
        rec('cartesian', 'planar-%d' % i, lambda: dict(cartesian=ints(b.crystal_to_cartesian(np.array(p, float)[:, :2],
            np.array(A[0][:2], float), np.array(A[1][:2], float))), crystal=[q[:2] for q in p]), a=[A[0][:2], A[1][:2]])
    for i in range(c.q(30, 200)):
        angle, angle0 = rng.choice((60, 90, 120)), rng.choice((0, 0, 30, -45, 17.5))
        def work():
            out = b.BZ(angle, angle0) if angle0 else b.BZ() if angle == 120 else b.BZ(angle)
            a1, a2 = b.translations(angle, angle0)
            return dict(got=ints(np.stack([out @ a1, out @ a2], axis=-1), 6))
        rec('zone', i, work, angle=angle)
    c.judge('CrystalTrace', recs)
