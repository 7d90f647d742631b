"""Occupation functions, their derivatives and entropies; Fermi level."""
import numpy as np
from common import *
import elphmod
from elphmod import occupations as occ

U = 2 ** 20
R = 14
NAMES = ['fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton', 'lorentz',
    'double_fermi_dirac', 'two_fermi_dirac', 'fermi_dirac_matsubara', 'bose_einstein']

def fixed(y):
    y = np.asarray(y)
    if np.iscomplexobj(y):
        y = np.where(abs(y.imag) < 1e-9, y.real, np.nan)
    return ints(np.round(y * U)) if np.all(np.isfinite(y)) else [BAD]

def evaluate(f, x, form):
    if form == 'scalars':
        return np.array([float(f(float(y))) for y in x])
    if form == 'grid':
        return np.asarray(f(x.reshape(2, -1))).ravel() if len(x) % 2 == 0 else \
            np.asarray(f(x.reshape(-1, 1, 1))).ravel()
    if form == 'complex':
        return f(x + 2j * np.pi)
    return f(x)

def parts(f):
    return [f] + [getattr(f, a, None) for a in ('delta', 'delta_prime', 'entropy')]

def tables(name, x, form='array', order=1):
    out = []
    for part, f in zip('fdps', parts(getattr(occ, name))):
        if f is None or part == 's' and name == 'methfessel_paxton' and order != 1:
            out.append([])
        else:
            out.append(fixed(evaluate(f, x, form)))
    return out

def setup(name, par):
    if name == 'methfessel_paxton':
        occ.methfessel_paxton.order = par
    elif name in ('double_fermi_dirac', 'two_fermi_dirac'):
        getattr(occ, name).d = par / 16

def table(rng, i):
    name = NAMES[i % len(NAMES)]
    par = {'methfessel_paxton': rng.randint(0, 3), 'double_fermi_dirac': rng.randint(0, 96),
        'two_fermi_dirac': rng.randint(8, 96), 'fermi_dirac_matsubara': rng.choice((100, 300, 1000))}.get(name, 0)
    forms = ['array', 'scalars', 'grid']
    if name == 'bose_einstein':
        forms.append('complex')
    if name == 'fermi_dirac_matsubara':
        forms = ['array']
    form = rng.choice(forms)
    top = 8 if name in ('methfessel_paxton', 'gauss', 'marzari_vanderbilt') else R
    if name in ('double_fermi_dirac', 'two_fermi_dirac'):
        top += 6
    x = np.arange(-16 * top, 16 * top + 1) / 16
    r = dict(key='%s-%d' % (name, i), kind='table', exc='', name=name, par=par, same=True,
        f=[], d=[], p=[], s=[], r=[], whole=dict(f=[], d=[], p=[], s=[]))
    def work():
        setup(name, par)
        if name == 'bose_einstein':
            x[16 * top] = 1.0 # infinite at zero
        y = x.copy()
        if name == 'fermi_dirac_matsubara':
            f = occ.fermi_dirac_matsubara
            r['f'] = fixed(f(x, nmats=par))
            r['d'] = fixed(f.delta(x, nmats=par))
            r['p'] = fixed(f.delta_prime(x, nmats=par))
        else:
            r['f'], r['d'], r['p'], r['s'] = tables(name, x, form, par)
            n = rng.randint(1, 3)
            z = np.arange(-n, n + 1)
            if name == 'bose_einstein':
                z = np.where(z == 0, 1, z)
            w = tables(name, z, rng.choice(('array', 'grid')), par)
            r['whole'] = dict(zip('fdps', w))
        r['same'] = bool(np.all(x == y))
        if name in ('double_fermi_dirac', 'two_fermi_dirac'):
            n = 16 * top + par
            r['r'] = tables('fermi_dirac', np.arange(-n, n + 1) / 16)[:3]
        elif name == 'methfessel_paxton':
            r['r'] = tables('gauss', x)[:3]
        elif name in ('fermi_dirac_matsubara', 'bose_einstein'):
            r['r'] = tables('fermi_dirac', np.arange(-16 * top, 16 * top + 1) / 16)[:3]
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def far(rng, i):
    name = rng.choice([n for n in NAMES if 'matsubara' not in n])
    par = rng.randint(0, 3) if name == 'methfessel_paxton' else rng.randint(8, 160)
    x = [rng.choice((-1, 1)) * 10.0 ** rng.choice((3, 4, 5, 6)) * rng.randint(1, 9) for _ in range(5)]
    if name == 'lorentz':
        x = [1e3 * y for y in x]
    r = dict(key='far-%s-%d' % (name, i), kind='far', exc='', x=[1 if y > 0 else -1 for y in x], f=[],
        d=[], p=[], s=[], below=-U if name == 'bose_einstein' else U)
    def work():
        setup(name, par)
        r['f'], r['d'], r['p'], r['s'] = tables(name, np.array(x), rng.choice(('array', 'scalars')), par)
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def sharp(rng, i):
    x = [rng.randint(-3, 3) for _ in range(6)] + [0]
    r = dict(key='sharp-%d' % i, kind='sharp', exc='', x=x)
    def work():
        y = np.array(x, dtype=rng.choice((int, float)))
        if rng.random() < 0.5:
            y = y / 4
        h = occ.heaviside
        r['f'] = ints(2 * h(y))
        d, p = h.delta(y), h.delta_prime(y)
        r['dinf'] = [bool(v == np.inf) for v in d]
        r['d'] = ints(np.where(np.isinf(d), 0, d))
        r['p'] = ints(np.where(np.isinf(p), 0, p))
        r['s'] = ints(h.entropy(y))
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

TEXTS = ['gaussian', 'gauss', 'methfessel-paxton', 'm-p', 'mp', 'marzari-vanderbilt', 'cold', 'm-v',
    'mv', 'fermi-dirac', 'f-d', 'fd', 'lorentzian', 'lorentz', 'heaviside']

def named(rng, i):
    own = i >= len(TEXTS) and rng.random() < 0.3
    text = TEXTS[i % len(TEXTS)]
    shown = rng.choice((text, text.upper(), text.title())) if i >= len(TEXTS) else text
    r = dict(key='named-%d' % i, kind='named', exc='', own=own, text=text, result='')
    def work():
        if own:
            f = rng.choice((lambda x: x, occ.gauss, linear(1)))
            r['result'] = 'same' if occ.smearing(f) is f else 'other'
        else:
            r['result'] = occ.smearing(**dict(smearing=shown, degauss=0.1)).__name__
    ok, v = call(work)
    if ok != 'ok':
        r['exc'] = v
    return r

def linear(_):
    def f(x):
        return np.clip(0.5 - 0.5 * np.asarray(x, float), 0.0, 1.0)
    f.delta = lambda x: np.where(abs(np.asarray(x, float)) < 1, 0.5, 0.0)
    return f

def level(rng, i):
    shape = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))] + [rng.randint(1, 4)]
    size = int(np.prod(shape))
    nb = shape[-1]
    simple = rng.random() < 0.3
    name = rng.choice(('linear', 'linear', 'fd', 'gauss', 'lorentz', 'fermi-dirac'))
    if simple and name in ('linear', 'gauss'): # long tails needed
        name = 'fd'
    gap = rng.random() < 0.3 and nb > 1 and not simple
    e = np.array([rng.randint(-6, 6) for _ in range(size)]).reshape(shape)
    if gap:
        e[..., nb // 2:] += rng.randint(8, 14)
    kT = rng.randint(1, 5)
    n = 8 * (nb // 2) if gap and rng.random() < 0.7 else rng.randint(2 * nb if simple else 1, 8 * nb - 1)
    tol = rng.choice((100000, 1000))
    shift = rng.choice((0, 0, 0, -30, 50)) if not simple else 0
    e += shift
    q = 4096
    kw = {}
    if tol != 100000 or rng.random() < 0.5:
        kw['tol'] = 1 / tol
    if rng.random() < 0.4:
        kw['mu'] = float(e.mean()) + (0 if simple else rng.randint(-3, 3))
    if simple:
        kw['damp'] = rng.choice((0.3, 0.5))
    r = dict(key='level-%d' % i, kind='level', exc='', e=ints(e.ravel()), kT=kT, n=n, k=size // nb, q=q,
        tol=tol, f='linear' if name == 'linear' else name, mu=0, v=[], same=True)
    def work():
        E = e.astype(rng.choice((float, float, int)))
        E0 = E.copy()
        f = linear(1) if name == 'linear' else name
        if name != 'fd' or rng.random() < 0.5:
            kw['f'] = f
        find = occ.find_Fermi_level_simple if simple else occ.find_Fermi_level
        mu = float(find(n / 4, E, kT=kT, **kw))
        r['mu'] = ints([np.round(mu * q)])[0]
        r['same'] = bool(np.all(E == E0))
        if name != 'linear':
            r['v'] = fixed(occ.smearing(f)((e.ravel() - mu) / kT))
    ok, v = call(work, timeout=20)
    if ok != 'ok':
        r['exc'] = v
    return r

def run(c):
    c.explore('OccupationsDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS Bands = 3\n High = %d\nINVARIANTS Monotone Bounded Ends Mirror\n' % c.q(4, 9))
    seed = c.rng.random()
    records = []
    for f, quick, thorough in ((table, 54, 900), (far, 100, 2000), (sharp, 20, 200), (named, 60, 200),
            (level, 300, 6000)):
        records += farm(f, c.q(quick, thorough), seed)
    c.judge('OccupationsTrace', records, verdict='OfOccupations')
