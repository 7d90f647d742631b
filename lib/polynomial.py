"""Polynomial particle distributions: all divided differences are integers."""
import math
import numpy as np

class Polynomial:
    """Integer polynomial f; delta = -f', delta_prime = -f''; u scales the argument."""
    def __init__(self, c, u=1.0, s=()):
        self.c, self.u, self.s = list(c), u, list(s)

    def entropy(self, x):
        return self._eval(self.s, self._p(x))

    def _p(self, x):
        x = np.asarray(x, dtype=float) / self.u
        return np.rint(x) if self.u != 1.0 else x

    def _eval(self, c, x):
        y = np.zeros_like(x)
        for a in reversed(c):
            y = y * x + a
        return y

    def __call__(self, x):
        return self._eval(self.c, self._p(x))

    def delta(self, x):
        return -self._eval([n * a for n, a in enumerate(self.c)][1:], self._p(x)) + 0.0

    def delta_prime(self, x):
        return -self._eval([n * (n - 1) * a for n, a in enumerate(self.c)][2:], self._p(x)) + 0.0

def distribution(rng, degree=3, span=3):
    c = [rng.randint(-span, span) for _ in range(rng.randint(2, degree + 1))]
    if not any(c[1:]):
        c[1] = 1
    return c

def gauss(rng, shape, span=3, real=False, density=1.0):
    a = np.zeros(shape, dtype=complex)
    for i in np.ndindex(*shape):
        if rng.random() < density:
            a[i] = rng.randint(-span, span) + (0 if real else 1j * rng.randint(-span, span))
    return a.real.copy() if real else a
