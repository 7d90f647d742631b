from common import *
from planar import *
import numpy as np
import elphmod
d = elphmod.dispersion

ROT = [(65, 0), (63, 16), (63, -16), (60, 25), (56, 33), (56, -33), (52, 39), (39, 52), (16, 63)]

def frame(rng, n, mild):
    """Orthogonal columns of integers, length 65."""
    V = 65 * np.eye(n, dtype=int)
    ax = rng.sample(range(n), n)
    for i in range(0, n - 1, 2):
        c, s = rng.choice(ROT[:4] if mild else ROT)
        a, b = ax[i], ax[i + 1]
        V[a, a], V[a, b], V[b, a], V[b, b] = c, -s, s, c
    return V

def path(rng, n, points, mild=True, deg=0.3, span=12):
    """Energies and eigenvectors of n characters along a path."""
    e = [rng.randint(-span, span) for _ in range(n)]
    out = []
    base = rng.sample(range(n), n)
    for p in range(points):
        while True:
            f = [x + rng.randint(-span // 2, span // 2) for x in e]
            if len(set(f)) == n or p and rng.random() < deg:
                break
        e = f
        V = frame(rng, n, mild)[:, base]
        o = sorted(range(n), key=lambda c: e[c])
        out.append((np.array([e[c] for c in o]), V[:, o]))
    return out

def pts(path, ph=None):
    return [dict(v=ints(v), V=[[[int(x.real), int(x.imag)] for x in col] for col in V.T.astype(complex)])
        for v, V in path]

def run(c):
    rng = c.rng
    c.explore('BandOrderDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS B = 3\nLENGTH = %d\n'
        'INVARIANTS NeverLost Follows Renames\n' % c.q(4, 5))
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(dict(key='%s-%s' % (kind, key), kind=kind, exc='', v=[], W=[], o=[], dv=-1, mean=False), **kw)
        ok, v = call(work)
        if ok == 'ok':
            r.update(v)
        else:
            r['exc'] = v
        recs.append(r)
    for i in range(c.q(120, 1000)):
        n, points = rng.randint(1, 4), rng.randint(1, 9)
        P = path(rng, n, points, mild=rng.random() < 0.7, deg=rng.choice((0, 0.5)))
        P = [(v, V * np.array([rng.choice((1, -1, 1j, -1j)) for _ in range(n)])[None]) for v, V in P]
        dv = rng.choice((-1, -1, 5, 20))
        mean = rng.random() < 0.5
        def work():
            v = np.array([p[0] for p in P], float)
            V = np.array([p[1] for p in P]) / 65.0
            dig = digest((v, V))
            kw = dict(status=rng.random() < 0.3)
            if not mean:
                kw['by_mean'] = False
            if dv > 0:
                kw['dv'] = dv
            o = d.band_order(v, V, **kw)
            if digest((v, V)) != dig:
                raise RuntimeError('argument modified')
            return dict(o=ints(o))
        rec('order', i, work, points=pts(P), dv=dv, mean=mean, exact=True)
    for i in range(c.q(80, 600)):
        n = rng.randint(1, 4)
        shape = rng.choice(((3,), (7,), (2, 3), (3, 2), (1,), (1, 4), (2, 2, 2)))
        points = int(np.prod(shape))
        P = path(rng, n, points, mild=rng.random() < 0.7, deg=rng.choice((0, 0.5)))
        H = [np.einsum('ij,j,kj->ik', V, v, V) / 65.0 ** 2 for v, V in P]
        def matrix(*k):
            return H[int(round(k[0]))] if k else H[0]
        order, vectors = rng.random() < 0.7, rng.random() < 0.7
        mean = rng.random() < 0.6
        herm = rng.random() < 0.8
        def work():
            k = np.arange(points, dtype=float).reshape((*shape, 1))
            if rng.random() < 0.5:
                k = np.concatenate([k, 0 * k + 0.3], axis=-1)
            kw = dict(vectors=vectors, order=order, hermitian=herm)
            if order and not mean:
                kw['by_mean'] = False
            if rng.random() < 0.3:
                kw['shared_memory'] = True
            if vectors and herm and rng.random() < 0.2:
                kw['gauge'] = True
            out = d.dispersion(matrix, k, **kw)
            out = list(out) if vectors or order else [out]
            v = out.pop(0)
            V = out.pop(0) if vectors else None
            o = out.pop(0) if order else np.tile(np.arange(n), (*shape, 1))
            if v.shape != (*shape, n) or o.shape != v.shape or V is not None and V.shape != (*shape, n, n):
                raise RuntimeError('wrong shape')
            g = dict(v=ints(v.real.reshape((points, n))), o=ints(o.reshape((points, n))))
            if abs(v.imag).max() > 1e-9:
                raise RuntimeError('complex energies')
            if vectors:
                g['W'] = []
                for x, (e, _) in zip(V.reshape((points, n, n)), P):
                    g['W'].append(ints(x.T * 65 + 0j, tol=1e-5) if len(set(e)) == n else [])
            return g
        # without ordering the order is the identity: nothing to follow
        rec('path' if order else 'plain', i, work, points=pts(P) if order else pts(P),
            mean=mean if order else False, exact=False)
        if not order:
            recs[-1]['kind'] = 'plain'
    for i in range(c.q(40, 300)):
        n = rng.randint(1, 4)
        shape = rng.choice(((), (3,), (2, 2)))
        points = int(np.prod(shape))
        A = path(rng, n, points, mild=rng.random() < 0.5)
        B = path(rng, n, points, mild=rng.random() < 0.5)
        def work():
            V1 = np.array([a[1] for a in A]).reshape((*shape, n, n)) / 65
            V2 = np.array([b[1] for b in B]).reshape((*shape, n, n)) / 65 * 1j
            got = d.map_dispersions(V1, V2)
            if got.shape != (*shape, n):
                raise RuntimeError('wrong shape')
            return dict(pairs=[[a['V'], b['V'], g] for a, b, g in zip(pts(A), pts(B), ints(got.reshape((points, n))))])
        rec('map', i, work, pairs=[])
    c.judge('BandOrderTrace', recs)
    full = recs = []
    def rec2(kind, key, work, **kw):
        r = dict(key='full-%s' % key, kind=kind, exc='', got=[], **kw)
        ok, v = call(work)
        r.update(v if ok == 'ok' else dict(exc=v))
        full.append(r)
    full_mesh(rng, rec2, c.q(30, 300), always=True)
    c.judge('SymmetryTrace', full)
