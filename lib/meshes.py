"""Mesh data for exact Fourier transforms, symmetric force constants."""
import math
import numpy as np
from common import *
from lattices import *
import elphmod
import elphmod.bravais as b

def unit(at, nr, *bonds):
    """Least common multiple of all numbers of nearest images."""
    m = 1
    for t1, t2 in bonds:
        R, d, l = b.wigner(*nr, np.array(at, float), np.array(t1, float),
            np.array(t2, float))
        for x in np.unique(d):
            if x:
                m = math.lcm(m, int(x))
    return m * int(np.prod(nr))

def within(at, nr, *bonds):
    """Are all nearest images within the supercells searched by default?"""
    at = np.array(at)
    def images(M):
        return np.array([(i, j, k) for i in M for j in M for k in M]) * nr
    few, many = images(range(-2, 2)), images(range(-4, 5))
    for t1, t2 in bonds:
        for s1 in t1:
            for s2 in t2:
                for m in np.ndindex(*nr):
                    l = [(((np.array(m) + M) @ at + np.array(s2) - s1) ** 2).sum(axis=1)
                        for M in (few, many)]
                    if (l[0] == l[1].min()).sum() != (l[1] == l[1].min()).sum():
                        return False
    return True

def short(nr, rng):
    """Drop trailing dimensions of size one (models accept 1D and 2D)."""
    n = len(nr)
    while n > 1 and nr[n - 1] == 1 and rng.random() < 0.7:
        n -= 1
    return tuple(nr[:n])

def mesh3(rng, most=16):
    while True:
        nr = [rng.choice((1, 2, 2, 4)) for _ in range(3)]
        if rng.random() < 0.5:
            nr[rng.choice((2, 2, 0, 1))] = 1
            if rng.random() < 0.4:
                nr.reverse()
        if np.prod(nr) <= most:
            return nr

def sparse_ints(rng, shape, scale, n, cplx=True, span=20):
    x = np.zeros(shape, dtype=complex)
    for _ in range(n):
        i = tuple(rng.randrange(k) for k in shape)
        x[i] = scale * (rng.randint(-span, span) + (1j * rng.randint(-span, span) if cplx else 0))
    if not x.any():
        x[(0,) * len(shape)] = scale
    return x

def hermitian_mesh(D, nr):
    """Enforce D(-q) = D(q)* (real force constants)."""
    for m in np.ndindex(*nr):
        n = tuple((-i) % k for i, k in zip(m, nr))
        if n == m:
            D[m] = D[m].real
        elif m < n:
            D[n] = D[m].conj()

def nonzero(A, nmesh):
    return [list(map(int, i)) + ints([A[i].real, A[i].imag])
        for i in zip(*np.nonzero(A))]
