"""Symmetric functions on two-dimensional meshes."""
import numpy as np
from common import *
import elphmod

def turn(angle, k):
    k1, k2 = k
    return {60: (-k2, k1 + k2), 90: (-k2, k1), 120: (k1 - k2, k1)}[angle]

def mirror(angle, k):
    k1, k2 = k
    return {60: (-k1, k1 + k2), 90: (-k1, k2), 120: (-k1, k2 - k1)}[angle]

def ops(angle):
    for reflect in False, True:
        for n in range(4 if angle == 90 else 6):
            def f(k, n=n, reflect=reflect):
                for _ in range(n):
                    k = turn(angle, k)
                return mirror(angle, k) if reflect else k
            yield f

def classes(angle, nk, subgroup=None):
    """Orbit labels on the mesh."""
    fs = list(ops(angle)) if subgroup is None else subgroup
    lab = {}
    for k in np.ndindex(nk, nk):
        if k in lab:
            continue
        todo, lab[k] = [k], len(lab)
        while todo:
            p = todo.pop()
            for f in fs:
                q = tuple(x % nk for x in f(p))
                if q not in lab:
                    lab[q] = lab[k]
                    todo.append(q)
    return lab

def random_data(rng, angle, nk, span=9):
    """Integer data with full or lower symmetry."""
    fs = None if rng.random() < 0.6 else rng.sample(list(ops(angle)), rng.randint(0, 2))
    lab = classes(angle, nk, fs)
    val = {}
    return {k: val.setdefault(l, rng.randint(-span, span)) for k, l in lab.items()}

QS = {1: ([[1]], 1), 2: ([[3, 4], [-4, 3]], 5), 3: ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3)}

class Bands:
    """Matrix with symmetric integer bands on meshes of 1, 2, 3, 4, 6 points
    and constant eigenvectors (columns of an orthogonal matrix)."""
    def __init__(self, rng, angle, n=None):
        self.angle, self.n = angle, n or rng.randint(1, 3)
        self.shells = [[[rng.choice((-3, -2, -1, 1, 2, 3)), rng.randint(0, 2), rng.randint(-1, 2)]
            for _ in range(rng.randint(1, 2))] for b in range(self.n)]
        how = rng.random()
        if how < 0.3: # no crossings
            for b in range(self.n):
                self.shells[b].append([50 * b + 7, 0, 0])
        elif how < 0.75: # crossings between mesh points only: different modulo five
            rest = rng.sample(range(5), self.n)
            for b in range(self.n):
                self.shells[b] = [[5 * c, R1, R2] for c, R1, R2 in self.shells[b]] + [[rest[b], 0, 0]]
        Q, self.s = QS[self.n]
        self.Q = np.array(Q, float) / self.s
        self.fs = list(ops(angle))
    def e(self, b, k1, k2):
        return sum(2 * c * np.cos(R1 * p1 + R2 * p2) for c, R1, R2 in self.shells[b]
            for p1, p2 in (f((k1, k2)) for f in self.fs))
    def __call__(self, k1=0, k2=0):
        return self.Q @ np.diag([self.e(b, k1, k2) for b in range(self.n)]) @ self.Q.T + 0j
    def simple(self, k1, k2):
        e = sorted(self.e(b, k1, k2) for b in range(self.n))
        return all(abs(x - y) > 0.5 for x, y in zip(e, e[1:]))
    def cols(self):
        return ints(self.Q.T * self.s)

def full_mesh(rng, rec, n, always=False):
    """Dispersions on full meshes with and without symmetry."""
    for i in range(n):
        angle, nk = rng.choice((60, 90, 120)), rng.choice((1, 2, 3, 4, 6, 6) if always else (1, 2, 3, 4, 6))
        B = Bands(rng, angle, rng.choice((None, 3)) if always else None)
        vectors, order, nosym = rng.random() < 0.5, always or rng.random() < 0.5, rng.random() < 0.4
        def work():
            kw = dict(vectors=vectors, order=order)
            if nosym:
                out = elphmod.dispersion.dispersion_full_nosym(B, nk, angle=angle, **kw)
            else:
                out = elphmod.dispersion.dispersion_full(B, nk, angle=angle, **kw)
            out = list(out) if vectors or order else [out]
            v = out.pop(0)
            g = dict(v=ints(v.reshape((nk * nk, -1))))
            if vectors:
                V = out.pop(0)
                g['V'] = [ints(V[k].T.real * B.s) if B.simple(2 * np.pi * k[0] / nk, 2 * np.pi * k[1] / nk)
                    else [] for k in np.ndindex(nk, nk)]
            if order:
                g['o'] = ints(out.pop(0).reshape((nk * nk, -1)))
            return g
        rec('dispersion', '%s%d' % ('nosym-' if nosym else '', i), work, angle=angle,
            nk=nk, bands=B.shells, cols=B.cols(), vectors=vectors, order=order, v=[], V=[], o=[])
