"""Parameters of McMillan's formula and critical temperatures."""
import math
import numpy as np
from common import *
import elphmod

U = 65536
SOFT = 99

class Delta:
    """Step function whose negative derivative is c[0] + c[1] x^2."""
    def __init__(self, c):
        self.c = c
    def __call__(self, x):
        return 0.5 - self.c[0] * x - self.c[1] * x ** 3 / 3
    def delta(self, x):
        return self.c[0] + self.c[1] * x * x

def fix(x):
    return ints([np.round(x * U)])[0]

def log2(x):
    return fix(math.log2(x)) if x > 0 else -700 * U

def temperature(rng, i):
    lam, mu = rng.randint(5, 400) / 100, rng.choice((0, 5, 10, 13, 20))
    wlog = rng.choice((0.005, 0.01, 0.02, 0.05, 0.3))
    correct = rng.random() < 0.7
    shaped = correct and rng.random() < 0.6
    w2nd = wlog * rng.randint(100, 200) / 100 if shaped else None
    r = dict(key='temperature-%d' % i, kind='temperature', exc='', lam=fix(lam), mu=mu, log=0,
        correct=correct, shaped=shaped, w=fix(w2nd / wlog) if shaped else 0, ratio=U)
    def work():
        Tc = elphmod.eliashberg.Tc
        T = Tc(lam, wlog) if mu == 10 and rng.random() < 0.5 else Tc(lam, wlog, mu / 100)
        r['log'] = log2(T / wlog)
        if correct:
            T2 = Tc(lam, wlog, mustar=mu / 100, w2nd=w2nd, correct=True)
            r['ratio'] = fix(T2 / T) if T > 1e-290 else BAD
        elif rng.random() < 0.5: # only used if corrections are requested
            r['log'] = log2(Tc(lam, wlog, mu / 100, 2 * wlog) / wlog)
        if T <= 1e-290:
            r['correct'] = False
            r['ratio'] = U
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def parameters(rng, i):
    tetra = rng.random() < 0.5
    nq = rng.choice((1, 2, 2, 3) if tetra else (1, 2, 2, 3, 4))
    nk = nq * (rng.randint(1, 2) if nq < 3 else 1)
    nb, nph = rng.choice((1, 2, 2)), rng.randint(1, 2)
    q = sorted(elphmod.bravais.irreducibles(nq))
    c = [rng.randint(1, 3), rng.randint(0, 2)]
    levels = (-3, -1, 1, 3) if tetra else (-2, -1, 0, 1)
    e = np.array([rng.choice(levels) for _ in range(nk * nk * nb)]).reshape(nk, nk, nb)
    k = [[SOFT if rng.random() < 0.15 else rng.randint(-2, 2) for _ in range(nph)] for _ in q]
    g = np.array([rng.choice((0, 0, 1, 2, 3, 9)) for _ in range(len(q) * nph * (nk * nb) ** 2)]
        ).reshape(len(q), nph, nk, nk, nb, nb)
    correct = rng.random() < 0.5
    mu = rng.choice((0, 10, 15))
    kT = rng.choice((1, 0.5)) if not tetra else 1
    r = dict(key='parameters-%d' % i, kind='parameters', exc='', tetra=tetra, nq=nq, q=ints(q), c=c,
        e=ints(e), k=k, g=ints(g), correct=correct, mu=mu, empty=False, m=0, s=0, logw=0, second=0,
        lam=0, log=0, w=U, ratio=U)
    def work():
        eps = rng.choice((1e-10, 1e-3))
        w2 = np.array([[rng.choice((0.0, -1.0, eps / 2)) if x == SOFT else 2.0 ** x for x in y] for y in k])
        kw = dict(eps=eps) if eps != 1e-10 or rng.random() < 0.5 else {}
        if mu or rng.random() < 0.5:
            kw['mustar'] = mu / 100
        if tetra:
            kw['tetra'] = True
        else:
            kw.update(kT=kT, f=Delta(c))
        if correct:
            kw['correct'] = True
        R = elphmod.eliashberg.McMillan(nq, e * float(kT), w2, g.astype(float), **kw)
        lam, wlog, T = map(float, R[:3])
        if not tetra:
            lam *= kT # density of states per unit energy
        if not np.isfinite(lam) or lam == 0 or not np.isfinite(wlog):
            r['empty'] = True
            return
        s = min(28, max(0, 20 - int(math.floor(math.log2(lam)))))
        r['m'], r['s'] = ints([np.round(lam * 2.0 ** s)])[0], s
        r['logw'] = log2(wlog)
        lam = float(R[0])
        r['lam'] = fix(min(lam, 4000))
        if correct:
            r['second'] = fix(float(R[3]) ** 2)
            r['w'] = fix(float(R[3]) / wlog)
            T0 = elphmod.eliashberg.Tc(lam, wlog, mu / 100)
            r['log'] = log2(T0 / wlog)
            if T0 > 1e-290 and lam < 5:
                r['ratio'] = fix(T / T0)
            else:
                r['lam'] = max(r['lam'], 5 * U) if lam >= 5 else r['lam']
                r['correct'] = lam >= 5
        else:
            r['log'] = log2(T / wlog)
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def run(c):
    c.explore('EliashbergDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS Modes = %d\n Most = 2\nINVARIANTS Between2 Ordered Silent\nPROPERTY Grows\n' % c.q(3, 4))
    seed = c.rng.random()
    records = []
    for f, quick, thorough in ((temperature, 300, 5000), (parameters, 400, 6000)):
        records += farm(f, c.q(quick, thorough), seed)
    c.judge('EliashbergTrace', records, verdict='OfEliashberg')
