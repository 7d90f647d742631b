"""Integer lattices (exact lengths) and sites."""
import numpy as np
from common import *

# reduced bases with integer Cartesian components
LATTICES = dict(
    cubic=[[2, 0, 0], [0, 2, 0], [0, 0, 2]],
    ortho=[[2, 0, 0], [0, 3, 0], [0, 0, 4]],
    tetra=[[3, 0, 0], [0, 3, 0], [0, 0, 5]],
    hex120=[[2, -2, 0], [0, 2, -2], [3, 3, 3]],
    hex60=[[2, -2, 0], [2, 0, -2], [2, 2, 2]],
    fcc=[[0, 2, 2], [2, 0, 2], [2, 2, 0]],
    bcc=[[-2, 2, 2], [2, -2, 2], [2, 2, -2]],
    mono=[[3, 0, 0], [1, 4, 0], [0, 0, 4]],
    tric=[[4, 0, 0], [1, 4, 0], [1, 1, 5]],
    left=[[0, 3, 0], [3, 0, 0], [0, 0, 3]],
    )

def sites(rng, a, n, far=False):
    """Integer sites inside the cell, optionally moved by lattice vectors."""
    a = np.array(a)
    inv = np.linalg.inv(a)
    out = []
    while len(out) < n:
        if rng.random() < 0.25:
            r = np.zeros(3, dtype=int)
        else:
            r = np.array([rng.randint(-4, 8) for _ in range(3)])
        f = r @ inv
        r = r - np.floor(f + 1e-9).astype(int) @ a
        if far:
            r = r + np.array([rng.randint(-1, 1) for _ in range(3)]) @ a
        out.append(list(map(int, r)))
    return out
