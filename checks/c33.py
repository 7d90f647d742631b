"""Readers of the output of other programs."""
import os
import re
import tempfile
from common import *
import numpy as np
import elphmod
from elphmod import el as EL, elph as EP, elel as EE, bravais as B, misc

elphmod.misc.verbosity = 0
STEPS = [(1, 0, 0), (0, 1, 0), (3, 4, 0), (0, -3, 4), (1, 2, 2), (-2, 3, 6), (0, 0, 0), (0, 0, -5)]

def dec(i, n, w=0):
    """Integer printed with decimal point before its last n digits."""
    s = '%0*d' % (n + 1, abs(i))
    return ('-' * (i < 0) + (s[:-n] + '.' + s[-n:] if n else s)).rjust(w)

def pieces(v, w):
    return [v[i:i + w] for i in range(0, len(v), w)]

class Document:
    """Text and what it means line by line."""
    def __init__(self):
        self.text, self.doc = [], []
        self.files = {} # further files by suffix

    def __call__(self, text='', t='skip', v=(), **kw):
        self.text.append(text)
        self.doc.append(dict(t=t, v=ints(v) if len(v) else [], **kw))

    def numbers(self, t, v, width, form):
        for p in pieces(list(v), width):
            self(''.join(form(i) for i in p), t, p)

    def blob(self):
        return ('\n'.join(self.text) + '\n').encode()

    def save(self, name):
        for suffix, blob in {'': self.blob(), **self.files}.items():
            with open(name + suffix, 'wb') as f:
                f.write(blob)

def path(rng, n):
    k = [[rng.randint(-9, 9) for _ in range(3)]]
    while len(k) < n:
        s = rng.choice(STEPS)
        k.append([a + b for a, b in zip(k[-1], s)])
    return k

def flat(x):
    return np.ravel(x)

def plot(rng, i, r, D):
    nb, nk = rng.randint(1, 4), rng.randint(1, 6)
    x = sorted(rng.randint(0, 9999) for _ in range(nk))
    for b in range(nb):
        for y in x:
            e = rng.randint(-99999, 99999)
            D('%s%s' % (dec(y, 4, 10), dec(e, 4, 10)), 'point', [y, e])
        D()
    r.update(kind='plot', d=[nb, nk])
    def work(name):
        x, e = EL.read_bands_plot(name, nb)
        return dict(x=ints(x, 10000), e=ints(flat(e), 10000))
    return work

def corners(rng, i, r, D):
    D('     Program BANDS v.6.3 starts')
    for _ in range(rng.randint(1, 6)):
        D()
        x = rng.randint(0, 99999)
        D('     high-symmetry point:  0.0000 0.5000 0.0000   x coordinate  %s' % dec(x, 4, 7), 'corner', [x])
    D('     JOB DONE.')
    r['kind'] = 'corners'
    return lambda name: dict(x=ints(EL.read_symmetry_points(name), 10000))

def projections(rng, i, r, D):
    old = rng.random() < 0.3
    nk, nb, no = rng.randint(1, 4), rng.randint(1, 7), rng.randint(1, 3)
    squared = old or rng.random() < 0.6
    other = squared and not old and rng.random() < 0.5
    order = rng.random() < 0.4 and no >= nb
    fermi = rng.random() < 0.6
    k = path(rng, nk)
    mu = rng.randint(-9999, 9999)
    e = [sorted(rng.sample(range(-30000, 30000), nb)) for _ in range(nk)]
    P = [[[[rng.randint(-99, 99), rng.randint(-99, 99)] for _ in range(nb)] for _ in range(no)]
        for _ in range(nk)]
    fine = lambda y, n: dec(y, n) + '0' * 4 + 'E+00'
    if old:
        D('<?xml version="1.0"?>')
        D('<ATOMIC_PROJECTIONS>')
        for t, v in (('NUMBER_OF_BANDS', nb), ('NUMBER_OF_K-POINTS', nk), ('NUMBER_OF_SPIN_COMPONENTS', 1),
                ('NUMBER_OF_ATOMIC_WFC', no), ('NUMBER_OF_ELECTRONS', '8.000E+000')):
            D('    <%s type="integer" size="1">' % t)
            D('%12s' % v)
            D('    </%s>' % t)
        D('    <UNITS_FOR_ENERGY UNITS="Rydberg"/>')
        D('    <FERMI_ENERGY type="real" size="1">')
        D(fine(mu, 4), 'fermi', [mu])
        D('    </FERMI_ENERGY>')
        D('  <K-POINTS type="real" size="%d" columns="3">' % (3 * nk))
        for q in k:
            D(' '.join(fine(y, 3) for y in q), 'k', q)
        D('  </K-POINTS>')
        D('  <EIGENVALUES>')
        for q in range(nk):
            D('    <K-POINT.%d>' % (q + 1))
            D('      <EIG type="real" size="%d">' % nb)
            for y in e[q]:
                D(fine(y, 4), 'e', [y])
            D('      </EIG>')
            D('    </K-POINT.%d>' % (q + 1))
        D('  </EIGENVALUES>')
        D('  <PROJECTIONS>')
        for q in range(nk):
            D('    <K-POINT.%d>' % (q + 1))
            for a in range(no):
                D('      <ATMWFC.%d type="complex" size="%d">' % (a + 1, nb))
                for z in P[q][a]:
                    D('%s,%s' % tuple(fine(y, 2) for y in z), 'proj', z)
                D('      </ATMWFC.%d>' % (a + 1))
            D('    </K-POINT.%d>' % (q + 1))
        D('  </PROJECTIONS>')
        D('</ATOMIC_PROJECTIONS>')
    else:
        D('<PROJECTIONS>')
        D('  <HEADER NUMBER_OF_BANDS="%d" NUMBER_OF_K-POINTS="%d" NUMBER_OF_SPIN_COMPONENTS="1" '
            'NUMBER_OF_ATOMIC_WFC="%d" NUMBER_OF_ELECTRONS="8.0" FERMI_ENERGY="%s"/>'
            % (nb, nk, no, dec(mu, 4)), 'fermi', [mu])
        D('  <EIGENSTATES>')
        for q in range(nk):
            D('    <K-POINT Weight="0.25">')
            D(' '.join(fine(y, 3) for y in k[q]), 'k', k[q])
            D('    </K-POINT>')
            D('    <E>')
            D.numbers('e', e[q], rng.choice((4, 5)), lambda y: ' ' + fine(y, 4))
            D('    </E>')
            D('    <PROJS>')
            for a in range(no):
                D('      <ATOMIC_WFC index="%d" spin="1">' % (a + 1))
                for z in P[q][a]:
                    D('  '.join(fine(y, 2) for y in z), 'proj', z)
                D('      </ATOMIC_WFC>')
            D('    </PROJS>')
        D('  </EIGENSTATES>')
        D('</PROJECTIONS>')
    r.update(kind='projections', d=[nk, nb, no], squared=squared, other=other, order=order, fermi=fermi,
        one=10000)
    def work(name):
        kw = dict(order=order, from_fermi=fermi)
        if old:
            x, k, e, w = EL.read_atomic_projections_old(name, **kw)
        else:
            x, k, e, w = EL.read_atomic_projections(name, squared=squared, other=other, **kw)
        r['x'] = ints(x, 1000)
        return dict(k=ints(flat(k), 1000), e=ints(flat(e), 10000),
            w=ints(flat(w), 10000) if squared else ints(flat(w.view(float)), 100))
    return work

ELEMENTS = ['H', 'C', 'S', 'Ta', 'Se', 'O']
LABELS = ['s', 'pz px py', 'dz2 dxz dyz dx2-y2 dxy', 'fz3 fxz2 fyz2 fz(x2-y2) fxyz fx(x2-3y2) fy(3x2-y2)']
LABELS = {name: (l, m) for l, names in enumerate(LABELS) for m, name in enumerate(names.split(), 1)}
LABELS.update({'s': (0, 1)})

def names(rng, i, r, D):
    soc = rng.random() < 0.3
    other = rng.random() < 0.5
    D('     Program PROJWFC v.6.3 starts')
    D()
    D('     Atomic states used for projection')
    D('     (read from pseudopotential files):')
    D()
    n = 0
    for atom in range(1, rng.randint(1, 3) + 1):
        X = rng.randrange(len(ELEMENTS))
        for wfc in range(1, rng.randint(1, 3) + 1):
            l = rng.randint(0, 3)
            if soc:
                for m in range(2 * l + 2):
                    n += 1
                    D('     state #%4d: atom %3d (%-3s), wfc %2d (l=%1d j=%3.1f m_j=%4.1f)' % (n, atom,
                        ELEMENTS[X], wfc, l, l + 0.5, m - l - 0.5), 'state', [X, wfc, l, 0])
            else:
                for m in range(2 * l + 1):
                    n += 1
                    D('     state #%4d: atom %3d (%-3s), wfc %2d (l=%1d m=%2d)' % (n, atom, ELEMENTS[X], wfc,
                        l, m + 1), 'state', [X, wfc, l, m + 1])
    D()
    D('     k =   0.0000000000  0.0000000000  0.0000000000')
    D('==== e(   1) =    -8.41334 eV ==== ')
    r['kind'] = 'names'
    def work(name):
        o = EL.read_projwfc_out(name, **(dict(other=other) if not other or rng.random() < 0.5 else {}))
        if other:
            assert o.pop() == 'X-x', 'other orbitals'
        out = []
        for s in o:
            X, dup, wfc, label = re.fullmatch(r'([A-Z][a-z]?)(\d*)-(\d+)(\S+)', s).groups()
            lm = ('spdf'.index(label), 0) if soc else LABELS[label]
            out.append([ELEMENTS.index(X), int(dup or 0), int(wfc), *lm])
        return dict(o=out)
    return work

def fermi_line(rng, D, mu):
    D('     the Fermi energy is %s ev' % dec(mu, 4, 10), 'fermi', [mu])

def fermi(rng, i, r, D):
    for _ in range(rng.randint(0, 3)):
        D('     number of electrons       =        18.00')
        mu = rng.randint(-99999, 99999)
        if rng.random() < 0.7:
            fermi_line(rng, D, mu)
        else:
            D('     highest occupied level (ev): %s' % dec(mu, 4, 10), 'fermi', [mu])
        D('!    total energy              =     -22.51880584 Ry')
    r['kind'] = 'fermi'
    def work(name):
        mu = EL.read_Fermi_level(name)
        return dict(mu=[] if mu is None else ints([mu], 10000))
    return work

def pw(rng, r, D, smeared, many):
    nk, nb = rng.randint(1, 4), rng.choice((1, 2, 3, 7, 8, 9, 13, 16, 17))
    mu = rng.randint(-50, 50) * 1000
    k = path(rng, nk)
    w = [rng.randint(1, 9) for _ in range(nk)]
    kind = rng.choice(('Fermi-Dirac', 'gaussian', 'Methfessel-Paxton', 'Marzari-Vanderbilt')) if smeared else ''
    if kind in ('Methfessel-Paxton', 'Marzari-Vanderbilt'):
        kind = 'Fermi-Dirac' # not one half at Fermi level
    width = rng.choice((2, 5, 10))
    ne = rng.randint(100, 9999)
    D()
    D('     Program PWSCF v.6.3MaX starts on 19Nov2026 at  7:20:00')
    D()
    D('     bravais-lattice index     =            4')
    D('     number of atoms/cell      =            3')
    D('     number of electrons       = %s' % dec(ne, 2, 12), 'electrons', [ne])
    D('     number of Kohn-Sham states= %12d' % nb)
    D('     kinetic-energy cutoff     =     100.0000  Ry')
    D()
    if smeared:
        D('     number of k points= %5d  %s smearing, width (Ry)= %s' % (nk, kind, dec(width, 4, 7)),
            'width', [width])
    else:
        D('     number of k points= %5d' % nk)
    D('                       cart. coord. in units 2pi/alat')
    for q in range(nk):
        D('        k(%5d) = (%s%s%s), wk = %s' % (q + 1, *(dec(y, 7, 12) for y in k[q]), dec(w[q], 7, 11)),
            'k', k[q])
        D.doc.append(dict(t='w', v=[w[q]]))
    D()
    D('     Dense  grid:    15625 G-vectors     FFT dimensions: (  36,  36, 180)')
    for z in range(rng.randint(1, 3) if many else 1):
        D()
        D('     Self-consistent Calculation')
        D('     total energy              =     -11.11111111 Ry')
        D()
        D('     End of self-consistent calculation', 'end')
        for q in range(nk):
            e = [mu + rng.choice((0, -1, 1, 1, -1)) * rng.randint(60, 90) * 1000 if smeared
                else rng.randint(-99999, 99999) for _ in range(nb)]
            if smeared:
                e = [y if y == mu or abs(y - mu) > 20000 else mu for y in e]
            D()
            D('          k =%s%s%s ( %5d PWs)   bands (ev):' % (*(dec(y, 4, 7) for y in k[q]), 100 + q))
            D()
            D.numbers('e', e, 8, lambda y: ' ' + dec(y, 4, 8))
        D()
        level = mu if smeared else rng.randint(-9999, 9999)
        how = 'fermi' if smeared else rng.choice(('fermi', 'middle', 'highest'))
        if how == 'fermi':
            fermi_line(rng, D, level)
        elif how == 'middle':
            d = rng.randint(1, 999)
            D('     highest occupied, lowest unoccupied level (ev): %s %s' % (dec(level - d, 4, 10),
                dec(level + d, 4, 10)), 'fermi', [level])
        else:
            D('     highest occupied level (ev): %s' % dec(level, 4, 10), 'fermi', [level])
        E = -rng.randint(1, 99999)
        D()
        D('!    total energy              = %s Ry' % dec(E, 4, 17), 'total', [E])
        D('     estimated scf accuracy    <       0.00000004 Ry')
    D()
    D('     JOB DONE.')
    return nk, nb

def scf(rng, i, r, D):
    nk, nb = pw(rng, r, D, rng.random() < 0.3, True)
    r.update(kind='scf')
    def work(name):
        e, ne, E = EL.read_pwo(name)
        assert e.shape == (nk, nb), 'shape'
        return dict(e=ints(flat(e), 10000), ne=ints([ne], 100), E=ints([E / misc.Ry], 10000))
    return work

def levels(rng, i, r, D):
    nk, nb = pw(rng, r, D, True, False)
    sub = rng.choice((None, sorted(rng.sample(range(nb), rng.randint(1, nb)))))
    r.update(kind='levels', d=[nk, nb], sub=list(range(nb)) if sub is None else sub)
    form = rng.choice((list, tuple, np.array))
    def work(name):
        e, k, f, kind, mu, kT = EL.read_eps_nk_from_qe_pwo(name)
        kw = dict(subset=form(sub)) if sub is not None else {}
        half = dict(zip(('Fermi-Dirac', 'gaussian'), (np.log(2), 0.5 / np.sqrt(np.pi))))[kind]
        return dict(e=ints(flat(e), 10000), k=ints(flat(k[:, :3]), 10 ** 7), w=ints(k[:, 3], 10 ** 7),
            mu=ints([mu], 10000), kT=ints([kT / misc.Ry], 10000), f=ints(flat(f), 2),
            band=ints([EL.eband(name, **kw) * misc.Ry], 2 * 10 ** 11, 1e-3),
            half=ints([-EL.demet_from_qe_pwo(name, **kw) * misc.Ry / kT / half], 10 ** 7))
    return work

def decay(rng, i, r, D):
    D('   # R_e [Ang]    max_{m,n} H(m,n,R_e) [Ry] ')
    for _ in range(rng.randint(1, 8)):
        x, h = rng.randint(0, 99999), rng.randint(0, 99999)
        D('  %s   %s' % (dec(x, 4) + 'E+00', dec(h, 5) + 'E+00'), 'pair', [x, h])
    r['kind'] = 'decay'
    def work(name):
        R, H = EL.read_decayH(name)
        return dict(R=ints(R, 10000), H=ints(H, 100000))
    return work

PARTS = [('sum bands', 'sum bands                 ='), ('one-electron', 'one-electron contribution ='),
    ('hartree', 'hartree contribution      ='), ('xc', 'xc contribution           ='),
    ('ewald', 'ewald contribution        ='), ('smearing', 'smearing contrib. (-TS)   =')]

def contributions(rng, i, r, D):
    some = [p for p in PARTS if rng.random() < 0.7]
    for _ in range(rng.randint(1, 3)):
        D('     total cpu time spent up to now is        0.8 secs')
        D('     total energy              =     -11.11111111 Ry')
        E = rng.randint(-99999, 99999)
        D('!    total energy              =%s Ry' % dec(E, 4, 17), 'total', [E])
        D()
        D('     The total energy is the sum of the following terms:')
        for key, text in some:
            E = rng.choice((-1, 1)) * 10 ** rng.randint(0, 8) * rng.randint(1, 9)
            D('     %s%s Ry' % (text, dec(E, 4, rng.choice((17, 10, 3)))), key, [E])
        D()
        D('     convergence has been achieved in   9 iterations')
    r.update(kind='contributions', keys=[k for k, _ in some] + ['total'])
    def work(name):
        d = EL.read_energy_contributions_scf_out(name)
        assert set(d) == set(r['keys']), 'keys'
        return {k: ints([float(v)], 10000) for k, v in d.items()}
    return work

def density(rng, i, r, D):
    n = [rng.randint(1, 4) for _ in range(3)]
    ibrav = rng.choice((1, 4, 6, 8))
    celldm = [rng.randint(1, 9), 0, 0, 0, 0, 0]
    if ibrav == 8:
        celldm[1] = rng.randint(1, 3)
    if ibrav != 1:
        celldm[2] = rng.randint(1, 3)
    nat = rng.randint(1, 3)
    D()
    D(''.join('%8d' % y for y in n + n + [nat, 1]))
    D('%6d' % ibrav + ''.join('%16.8f' % y for y in celldm))
    D('      %s      %s      %s     %d' % ('40.5', '4.0', '100.0', 0))
    D('   1   C     4.00')
    for a in range(nat):
        D('%4d%16.9f%16.9f%16.9f   1' % (a + 1, 0.1 * a, 0, 0))
    rho = [rng.randint(-9999, 9999) for _ in range(np.prod(n))]
    D.numbers('rho', rho, 5, lambda y: ' ' + (dec(y, 4) + 'E+00').rjust(16))
    V = celldm[0] ** 3 * (celldm[1] or 1) * (celldm[2] or 1) * (np.sqrt(3) / 2 if ibrav == 4 else 1)
    r.update(kind='density')
    def work(name):
        rho, q = EL.read_pp_density(name)
        return dict(rho=ints(flat(rho), 10000), charge=ints([q * np.prod(n) / V], 10000))
    return work

def separation(rng, i, r, D):
    D('     Program EPW v.5.4 starts')
    for _ in range(rng.randint(0, 2)):
        x = rng.randint(1, 99999)
        D('     Lattice parameter')
        D('     L %s Bohr' % dec(x, 4, 10), 'L', [x])
        D()
    r['kind'] = 'L'
    def work(name):
        x = EP.read_L(name)
        return dict(L=[] if x is None else ints([x], 10000))
    return work

HEAD = ('     ibnd     jbnd     imode   enk[eV]    enk+q[eV]  omega(q)[meV]   |g|[meV]', '     ' + '-' * 78)

def gkk(rng, i, r, D):
    nq, nk, nb, nu = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)
    D('     Electron-phonon vertex |g| (meV)')
    D()
    for q in range(nq):
        w = [rng.randint(0, 99999) for _ in range(nu)]
        D('     iq = %7d coord.:  %12.7f%12.7f%12.7f' % (q + 1, 0.1 * q, 0, 0))
        for k in range(nk):
            D('     ik = %7d coord.:  %12.7f%12.7f%12.7f' % (k + 1, 0.1 * k, 0, 0))
            D(HEAD[0])
            D(HEAD[1])
            for m in range(nb):
                for n in range(nb):
                    for v in range(nu):
                        g = rng.randint(0, 99999)
                        D('%9d%9d%9d%12.4f%12.4f%s   %s' % (m + 1, n + 1, v + 1, 1.5, -2.5, dec(w[v], 4, 14),
                            dec(g, 4) + 'E+00'), 'row', [w[v], g])
            D(HEAD[1])
            D()
    r.update(kind='gkk', d=[nq, nk, nb, nb, nu])
    def work(name):
        w, g = EP.read_prtgkk(name, nq, nu, nk, nb)
        return dict(w=ints(flat(w), 10000), g=ints(flat(g), 10000))
    return work

def epw(rng, i, r, D):
    nq, nk, nb, nu = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 3)
    mesh = [(a, b) for a in range(nq) for b in range(nq)]
    form = rng.choice(('g', 'epf', 'defpot'))
    Q = rng.sample(mesh, rng.randint(1, len(mesh)))
    fine = rng.random() < 0.3
    shift = lambda: rng.choice((0, 0, -1, 1))
    for q in rng.sample(mesh, len(mesh)):
        if fine:
            D('     iq = %7d coord.:  %12.7f%12.7f%12.7f' % (99, 0.4321, 0.1234, 0))
            D('     ik = %7d coord.:  %12.7f%12.7f%12.7f' % (1, 0, 0, 0))
            D(HEAD[0])
            D(HEAD[1])
            D('        1        1        1      1.5000      2.5000      7.0000    7.0000')
        D('     iq = %7d coord.:  %12.7f%12.7f%12.7f' % (1, q[0] / nq + shift(), q[1] / nq + shift(), 0))
        D()
        ks = [(a, b) for a in range(nk) for b in range(nk)]
        for k in rng.sample(ks, len(ks)):
            D('     ik = %7d coord.:  %12.7f%12.7f%12.7f' % (1, k[0] / nk + shift(), k[1] / nk + shift(), 0))
            D(HEAD[0])
            D(HEAD[1])
            for m in range(nb):
                for n in range(nb):
                    for v in range(nu):
                        g = rng.randint(0, 9999)
                        s = rng.randint(0, 99)
                        w = rng.randint(1, 99) if form == 'epf' else 50 * s * s
                        val = [w, g] if form == 'epf' else [g * s * 10] if form == 'defpot' else [g]
                        D('%9d%9d%9d%12.4f%12.4f%14.2f%20.2f' % (m + 1, n + 1, v + 1, 1.5, -2.5, w / 100,
                            g / 100), 'g', [*q, *k, m + 1, n + 1, v + 1, *val])
            D(HEAD[1])
    r.update(kind='mesh', d=[len(Q), nu, nk, nk, nb, nb], Q=[list(q) for q in Q])
    kw = {} if form == 'g' else {form: True}
    squeeze = rng.random() < 0.5
    def work(name):
        g = EP.read_EPW_output(name, Q if rng.random() < 0.5 else np.array(Q), nq, nu, nk, nb,
            squeeze=squeeze, **kw)
        assert g.shape == ((len(Q), nu, nk, nk) + (() if squeeze and nb == 1 else (nb, nb))), 'shape'
        scale = dict(g=1e5, epf=100 * 1e3 ** 1.5, defpot=1000 * 1e3 ** 1.5)[form]
        return dict(g=ints(flat(g.view(float) if form == 'epf' else g), scale, 1e-4))
    return work

def patterns(rng, i, r, D):
    n, N = rng.randint(1, 4), rng.randint(1, 3)
    Q = rng.choice((None, rng.sample(range(4), rng.randint(1, 3))))
    have = list(range(N)) if Q is None else sorted(Q)
    docs = []
    for q in have:
        E = Document()
        E('<?xml version="1.0"?>')
        E('  <IRREPS_INFO>')
        E('    <QPOINT_NUMBER type="integer" size="1">')
        E('%10d' % (q + 1))
        E('    <NUMBER_IRR_REP type="integer" size="1">')
        E('%10d' % n)
        E('    </NUMBER_IRR_REP>')
        for a in range(n):
            E('    <REPRESENTION.%d>' % (a + 1))
            E('        <DISPLACEMENT_PATTERN type="complex" size="%d">' % n)
            for b in range(n):
                u = rng.randint(-9999, 9999)
                E(' %s, 0.000000000E+000' % (dec(u, 4) + 'E+000'), 'u', [u])
            E('        </DISPLACEMENT_PATTERN>')
        docs.append(E)
        D.doc += [dict(l, q=q) for l in E.doc]
    r.update(kind='patterns', q=have if Q is None else Q)
    D.files = {'.%d' % (q + 1): E.blob() for q, E in zip(have, docs)}
    def work(name):
        u = EP.read_patterns(name + '.%d', N if Q is None else Q, n, status=False)
        return dict(u=ints(flat(u), 10000))
    return work

def wigner(rng, i, r, D):
    form = rng.choice(('text', 'new', 'new', 'middle', 'old'))
    nk, nq, ng = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 5)
    dims, nat = (1 if form == 'old' else rng.randint(1, 3)), rng.randint(1, 3)
    vec = lambda: [rng.randint(-9, 9) for _ in range(3)]
    some = lambda n: [rng.randint(0, 12) for _ in range(n)]
    swap = rng.random() < 0.3
    if form == 'text':
        D('%6d%6d%6d%6d%6d' % (nk, nq, ng, dims, nat))
        for n, R, t, rows, cols in ((nk, 'Rk', 'nk', dims, dims), (nq, 'Rq', 'nq', nat, nat),
                (ng, 'Rg', 'ng', dims, nat)):
            for _ in range(n):
                v = vec()
                D('%6d%6d%6d%26.17E' % (*v, 1.5), R, v)
                for _ in range(rows):
                    v = some(cols)
                    D(''.join('%6d' % y for y in v), t, v)
        r.update(d=[nk, dims, dims], dg=[ng, dims, nat])
        blob = None
    else:
        Rk, Rg, Rq = ([vec() for _ in range(n)] for n in (nk, ng, nq))
        dk, dq = some(dims * dims * nk), some(nat * nat * nq)
        dg = some((1 if form != 'middle' else dims) * dims * nat * ng)
        I = lambda v: np.array(v, dtype=np.int32).tobytes()
        F = lambda n: np.linspace(1.1, 2.3, n).tobytes()
        blob = [] if form == 'old' else [I([dims, nat])]
        blob += [I([nk]), I(Rk), I(dk)]
        if form == 'old':
            blob += [F(nk), I([nq]), I(Rq), I(dq), F(nq)]
        blob += [I([ng]), I(Rg), I(dg)]
        if form == 'old':
            blob.append(F(ng))
        for t, v in (('Rk', np.ravel(Rk)), ('nk', dk), ('Rg', np.ravel(Rg)), ('ng', dg)):
            D('', t, v)
        r.update(d=[nat, ng, 1, dims])
    r.update(kind='wigner', form='new' if form == 'new' else 'text' if form == 'text' else 'plain')
    suffix = '.fmt' if form == 'text' else '.dat'
    D.files = {suffix: D.blob() if blob is None else b''.join(blob)}
    def work(name):
        wrong = dict(zip(('.fmt', '.dat'), ('.dat', '.fmt')))[suffix]
        with silence():
            irvec_k, ndegen_k, irvec_g, ndegen_g = B.read_wigner_file(name + (wrong if swap else suffix),
                old_ws=form == 'old', nat=nat)
        assert ndegen_k.shape == (dims, dims, nk), 'shape'
        assert ndegen_g.shape == (dims if form == 'middle' else 1, dims, nat, ng), 'shape'
        return dict(k=ints(flat(irvec_k)), nk=ints(flat(ndegen_k)), g=ints(flat(irvec_g)),
            ng=ints(flat(ndegen_g)))
    return work

class silence:
    def __enter__(self):
        import io, sys
        self.old, sys.stdout = sys.stdout, io.StringIO()
    def __exit__(self, *_):
        import sys
        sys.stdout = self.old

def poscar(rng, i, r, D):
    D('comment')
    a = rng.choice((1, 1, 2, 5, 3))
    D('   %s' % dec(a * 10, 1), 'scale', [a])
    for _ in range(3):
        v = [rng.randint(-9999, 9999) for _ in range(3)]
        D(' '.join(dec(y, 4, 12) for y in v), 'a', v)
    X = rng.sample(ELEMENTS, rng.randint(1, 3))
    n = [rng.randint(1, 3) for _ in X]
    D('   ' + ' '.join('%-4s' % x for x in X))
    D('   ' + ' '.join('%4d' % x for x in n), 'count', n)
    selective = rng.random() < 0.5
    if selective:
        D(rng.choice(('Selective dynamics', 'selective')))
    D(rng.choice(('Direct', 'direct', 'Cartesian')))
    for _ in range(sum(n)):
        v = [rng.randint(-9999, 9999) for _ in range(3)]
        D(' '.join(dec(y, 4, 12) for y in v) + (rng.choice(('  T  T  F', ' T T T')) if selective else ''), 'atom', v)
    r['kind'] = 'poscar'
    def work(name):
        *t, atoms = B.readPOSCAR(name)
        assert sorted(atoms) == sorted(X), 'elements'
        return dict(a=ints(flat(t), 10000), n=[len(atoms[x]) for x in X],
            x=ints(np.concatenate([flat(atoms[x]) for x in X]), 10000))
    return work

def tensor(rng, i, r, D):
    n, dd = rng.randint(1, 3), rng.random() < 0.4
    D('# U_{ijkl}')
    D('  I    J    K    L          RE(U_IJKL)          IM(U_IJKL)')
    x = list(np.ndindex(n, n, n, n))
    for y in rng.sample(x, len(x)):
        z = [rng.randint(-99999, 99999), rng.randint(-99999, 99999)]
        y = [j + 1 for j in y]
        D('%5d%5d%5d%5d%s%s' % (*y, dec(z[0], 4, 20), dec(z[1], 4, 20)), 'U', y + z)
    r.update(kind='tensor', d=[n], dd=dd)
    def work(name):
        U = EE.read_local_Coulomb_tensor(name, n, dd=dd)
        return dict(U=ints(flat(U.view(float)), 10000))
    return work

def interaction(rng, i, r, D):
    n, dd = rng.randint(1, 2), rng.random() < 0.4
    nq = [rng.randint(1, 3) for _ in range(3)]
    if rng.random() < 0.5:
        nq[2] = 1
    D('# q1 q2 q3 i j k l Re Im')
    x = list(np.ndindex(*nq, n, n, n, n))
    for y in rng.sample(x, len(x)):
        z = [rng.randint(-99999, 99999), rng.randint(-99999, 99999)]
        y = list(y[:3]) + [j + 1 for j in y[3:]]
        q = ['%12.8f' % (y[j] / nq[j] + rng.choice((0, 0, 0, -1))) for j in range(3)]
        D('%s%s%s%4d%4d%4d%4d%s%s' % (*q, *y[3:], dec(z[0], 4, 20), dec(z[1], 4, 20)), 'U', y + z)
    r.update(kind='interaction', d=nq + [n], dd=dd)
    def work(name):
        U = EE.read_orbital_Coulomb_interaction(name, tuple(nq), n, dd=dd)
        return dict(U=ints(flat(U.view(float)), 10000))
    return work

def coupling(rng, i, r, D):
    nQ, nu, nk, nb = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2)
    offset = rng.choice((0, 0, 1, 2))
    above = rng.choice((0, 0, 1))
    phase = rng.random() < 0.4
    Q = rng.choice((None, rng.sample(range(1, 5), rng.randint(1, 3))))
    have = list(range(1, nQ + 1)) if Q is None else Q
    docs = []
    columns = rng.choice(('', '', '  0.1234  0.4321')) # whatever is printed in between
    for q in have:
        E = Document()
        E('#  k1 k2 jbnd ibnd nu g')
        x = list(np.ndindex(nk, nk, *[offset + nb + above] * 2, nu))
        for y in rng.sample(x, len(x)):
            y = [j + 1 for j in y]
            z = [rng.randint(-99999, 99999) for _ in range(2 if phase else 1)]
            E('%4d%4d%s%4d%4d%4d' % (y[0], y[1], columns, *y[2:])
                + ''.join(dec(v, 4, 12) for v in z), 'g', [q] + y + z)
        docs.append(E)
        D.doc += E.doc
    squeeze = rng.random() < 0.5
    r.update(kind='coupling', d=[len(have), nu, nk, nk, nb, nb], Q=list(have), offset=offset)
    kw = dict(offset=offset) if offset else {}
    D.files = {'.%d' % q: E.blob() for q, E in zip(have, docs)}
    def work(name):
        g = EP.coupling(name + '.%d', nQ, nu, nk, nb, Q=Q if Q is None else np.array(Q), phase=phase, squeeze=squeeze,
            completion=False, **kw)
        assert g.shape == ((len(have), nu, nk, nk) + (() if squeeze and nb == 1 else (nb, nb))), 'shape'
        return dict(g=ints(flat(g.view(float) if phase else g), 10000))
    return work

def plane(rng, i, r, D):
    n = rng.randint(1, 6)
    wave = rng.random() < 0.5
    bands, npol = (rng.randint(1, 3), rng.choice((1, 1, 2))) if wave else (1, 1)
    ibrav, a, c = rng.choice(((1, 2.0, 2.0), (6, 3.0, 1.5), (8, 4.0, 2.0)))
    b = 2 * a if ibrav == 8 else a
    m = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)]
    C = np.array([rng.randint(-99, 99) for _ in range(2 * n * bands * npol)])
    I = lambda *v: np.array(v, dtype=np.int32).tobytes()
    F = lambda v: np.array(v, dtype=float).tobytes()
    def record(*parts):
        s = b''.join(parts)
        return I(len(s)) + s + I(len(s))
    xk = [rng.randint(-9, 9) for _ in range(3)]
    alat = a / misc.a0
    if wave:
        blob = record(I(1), F(np.array(xk) / 8 * 2 * np.pi / alat), I(1), I(0), F([1.0]))
        blob += record(I(n + 3, n, npol, bands))
    else:
        blob = record(I(0, n, 1))
    blob += record(F(np.eye(3))) + record(I(*np.ravel(m)))
    for v in pieces(list(C), 2 * n * npol):
        blob += record(F(v))
    D('', 'miller', np.ravel(m))
    D('', 'c', C)
    r.update(kind='plane', B=ints(np.array([1, a / b, a / c]) * 2))
    D.files = {'': blob}
    def work(name):
        if wave:
            evc, igwx, k, kG, G, mill = EL.read_wfc(name, ibrav, a=a, b=b, c=c)
            assert igwx == n and evc.shape == (bands, npol * n), 'shape'
            assert np.allclose(k, np.array(xk) / 8) and np.allclose(kG, k + G), 'k point'
        else:
            evc, G, ng, V, mill = EL.read_rhoG_density(name, ibrav, a=a, b=b, c=c)
            assert ng == n, 'shape'
            assert np.isclose(V, a * b * c / misc.a0 ** 3), 'volume'
        return dict(m=ints(flat(mill)), c=ints(flat(evc.view(float))), G=ints(flat(G), 2))
    return work

KINDS = [plot, corners, projections, projections, names, fermi, scf, levels, decay, contributions, density,
    separation, gkk, epw, patterns, wigner, wigner, poscar, tensor, interaction, coupling, plane]

def document(rng, i):
    make = KINDS[i % len(KINDS)]
    r = dict(key='%s-%d' % (make.__name__, i), kind='', exc='', doc=[], got={})
    D = Document()
    work = make(rng, i, r, D)
    r['doc'] = D.doc
    with tempfile.TemporaryDirectory() as tmp:
        name = os.path.join(tmp, 'out')
        D.save(name)
        ok, v = call(work, name)
    if ok == 'ok':
        r['got'] = v
    else:
        r['exc'] = v
    return r

def run(c):
    for width in c.q((1, 3), (1, 2, 3, 5)):
        c.explore('OutputsDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Blocks = %d\n Count = %d\n'
            ' Width = %d\n Skip = 3\n Results = 3\nINVARIANTS Recovered Declared Inside Whole\nPROPERTY Terminates\n'
            % (c.q(2, 4), c.q(4, 7), width), name='OutputsDesign-%d' % width)
    c.judge('OutputsTrace', farm(document, c.q(1100, 22000), c.rng.random()), verdict='OfOutputs')
