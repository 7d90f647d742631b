"""Random two-dimensional force-constant models with point symmetry."""
import numpy as np
import elphmod

def model(rng):
    """Random model whose every atom is mapped onto images of itself."""
    angle = rng.choice((60, 60, 120, 90))
    a1, a2 = elphmod.bravais.translations(180 - angle)
    at = np.zeros((3, 3))
    at[0, :2], at[1, :2], at[2, 2] = a1, a2, 8.0
    a0 = rng.choice((1.0, 2.5, 6.0))
    at *= a0
    if angle == 90:
        pool = [(0, 0), (.5, .5), (0, .5), (.5, 0), (0, .25), (.5, .3)]
    elif angle == 60:
        pool = [(0, 0), (1 / 3, 2 / 3), (2 / 3, 1 / 3)]
    else:
        pool = [(0, 0), (1 / 3, 1 / 3), (2 / 3, 2 / 3)]
    nat = rng.randint(1, 3 if angle == 90 else 2)
    frac = rng.sample(pool, nat)
    z = [rng.choice((0, 0.3, -0.7)) for _ in range(nat)]
    r = np.array([np.dot(f, at[:2]) + [0, 0, z_] for f, z_ in zip(frac, z)])
    r2 = np.array([np.dot(f, at[:2, :2]) for f in frac])

    def rot(n):
        p = 2 * np.pi * n / 3
        return np.array([[np.cos(p), -np.sin(p), 0], [np.sin(p), np.cos(p), 0], [0, 0, 1]])
    mirror = np.diag([-1.0, 1, 1])
    group = [rot(n) @ m for n in range(1 if angle == 90 else 3) for m in (np.eye(3), mirror)]
    inv = np.linalg.inv(at[:2, :2])

    data = {}
    for _ in range(rng.randint(2, 6)):
        i, j = rng.randrange(nat), rng.randrange(nat)
        R = np.array([rng.randint(-2, 2), rng.randint(-2, 2)])
        C = np.array([[rng.randint(-20, 20) for _ in range(3)] for _ in range(3)], float)
        for g in group:
            g2 = g[:2, :2]
            T = [(g2 @ r2[k] - r2[k]) @ inv for k in (i, j)]
            S = (g2 @ (R @ at[:2, :2])) @ inv + T[1] - T[0]
            n = np.round(S).astype(int)
            assert abs(S - n).max() < 1e-9
            key = (i, j, *map(int, n))
            data[key] = data.get(key, 0) + g @ C @ g.T
    ph = dict(at=at, r=r, nat=nat, data=data, M=np.array([rng.choice((1.0, 4.0, 2.5)) for _ in range(nat)]),
        dm=rng.random() < 0.5)
    return ph, rng.randint(1, 6), angle

def sample(ph, nq):
    """Dynamical matrices on the full mesh."""
    D = np.zeros((nq, nq, 3 * ph['nat'], 3 * ph['nat']), dtype=complex)
    for (i, j, n1, n2), C in ph['data'].items():
        for p in range(nq):
            for q in range(nq):
                D[p, q, 3 * i:3 * i + 3, 3 * j:3 * j + 3] += C * np.exp(
                    2j * np.pi * (p * n1 + q * n2) / nq)
    return D

def empty(ph):
    return elphmod.ph.Model(amass=ph['M'].copy(), at=ph['at'].copy(),
        tau=ph['r'].copy(), atom_order=['X'] * ph['nat'], divide_mass=ph['dm'])
