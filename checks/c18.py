"""Histories of files with model data, written and read."""
import itertools
import re
from decimal import Decimal
from common import *
from couplings import *
import numpy as np
import elphmod
elphmod.misc.verbosity = 0
from elphmod import el as EL, ph as PH, elph as EP, elel as EE, misc, bravais
Ry, uRy = misc.Ry, misc.uRy

# -- opaque numbers ---------------------------------------------------------------

def norm(x, d=10):
    """Number as string with all its (up to d) decimals."""
    if isinstance(x, str):
        x = Decimal(x)
    elif x != x or abs(x) == float('inf'):
        return repr(float(x))
    s = ('%.*f' % (d, x)).rstrip('0').rstrip('.') if d else '%.0f' % x
    return '0' if s in ('-0', '') else s

def norms(x, d=10):
    return [norms(y, d) for y in x] if hasattr(x, '__len__') else norm(x, d)

def cnorms(x, d=10):
    x = np.asarray(x)
    if x.ndim:
        return [cnorms(y, d) for y in x]
    return [norm(x.real, d), norm(x.imag, d)]

def number(rng, d, big=9):
    """Random number with at most d decimals."""
    return float(Decimal(rng.choice((0, 1, -1, rng.randint(-big, big), rng.randint(
        -big * 10 ** d, big * 10 ** d) / 10 ** d))).quantize(Decimal(10) ** -d))

def numbers(rng, shape, d, big=9):
    return np.array([number(rng, d, big) for _ in range(int(np.prod(shape)))],
        dtype=float).reshape(shape)

def complexes(rng, shape, d, big=9):
    return numbers(rng, shape, d, big) + 1j * numbers(rng, shape, d, big)

def tokens(path, skip=0):
    """Lines of a text file without empty ones, case, and punctuation."""
    out = []
    with open(path) as f:
        for line in list(f)[skip:]:
            if line.lstrip().startswith('#'):
                continue
            ws = []
            for w in re.findall(r"[^\s,='()]+", line):
                try:
                    w = norm(float(w))
                except ValueError:
                    if not re.fullmatch('[A-Z][a-z]?[0-9]?', w):
                        w = w.lower() if w not in ('T', 'F') else w
                ws.append(w)
            if ws:
                if ws[:2] == ['effective', 'charges']:
                    ws = ws[:2]
                if ws[:2] == ['atom', '#']:
                    ws = ['atom'] + ws[2:]
                out.append(ws)
    return out

def respace(rng, path, keep):
    """Change the spacing of all but the first lines."""
    with open(path) as f:
        lines = list(f)
    with open(path, 'w') as f:
        for i, line in enumerate(lines):
            if i >= keep and line.strip():
                line = rng.choice(('', ' ', '   ', '\t')) + re.sub('(?<=[0-9]) +(?=[-0-9])',
                    lambda m: rng.choice((' ', '  ', '\t', '     ')), line.strip()) \
                    + rng.choice(('', ' ', '  ')) + '\n'
            f.write(line)

def vectors(rng, n, span=3):
    R = set()
    while len(R) < n:
        R.add(tuple(rng.randint(-span, span) for _ in range(3)))
    R = list(R)
    rng.shuffle(R)
    return R

# -- kinds of files: generate, write, read ----------------------------------------

class Kind:
    skip = 0 # lines not specified
    fixed = 0 # lines the spacing of which matters
    files = '',
    divide = False
    foreign = None
    specified = True

    def lines(self, path):
        return tokens(path, self.skip) if self.specified else []

class Hr(Kind):
    skip = fixed = 1
    def gen(self, rng):
        n = rng.choice((1, 2, 3, 14, 15, 16, 31)) if rng.random() < 0.5 else rng.randint(1, 6)
        size = rng.randint(1, 3) if n < 10 else 1
        R = vectors(rng, n)
        if rng.random() < 0.2:
            R = list(dict.fromkeys(r[:2] + (0,) for r in R))
            n = len(R)
        deg = [rng.choice((1, 1, 2, 3, 4)) for _ in R]
        q = [[[(number(rng, 6, 99), number(rng, 6, 99)) for _ in range(size)]
            for _ in range(size)] for _ in R]
        if rng.random() < 0.2:
            i = rng.randrange(n) # as wide as possible
            deg[i] = 1
            q[i] = [[(-999.0, 999.0)] * size] * size
        h = [np.array(x) * d for x, d in zip(q, deg)]
        return dict(R=[list(r) for r in R], size=size, ndegen=deg, Q=norms(q), H=norms(h),
            tb=False)
    def path(self, p, x):
        return p + ('_tb.dat' if x['tb'] else '_hr.dat')
    def data(self, x):
        H = np.array(x['H'], dtype=float)
        return np.array(x['R']), H[..., 0] + 1j * H[..., 1]
    def write(self, rng, x, p):
        R, H = self.data(x)
        args = [R, H, np.array(x['ndegen'])]
        if rng.random() < 0.5:
            args[1] = H.reshape((1, len(R), 1) + H.shape[1:]) # on a mesh
        if all(d == 1 for d in x['ndegen']) and rng.random() < 0.5:
            del args[2]
        if not R[:, 2].any() and rng.random() < 0.7:
            args[0] = R[:, :2] # planar
        copies = [a.copy() for a in args]
        EL.write_hrdat(p, *args)
        return all((a == b).all() for a, b in zip(args, copies))
    def foreign(self, rng, x, p):
        R, H = self.data(x)
        x['tb'] = rng.random() < 0.3 # other file of Wannier90 with the same content
        with open(self.path(p, x), 'w') as f:
            f.write(' written by nobody at noon\n')
            if x['tb']:
                f.write(' 1.0 0.0 0.0\n 0.0 1.0 0.0\n 0.0 0.0 1.0\n')
            f.write('%d\n%d\n' % (x['size'], len(R)))
            o = sorted(range(len(R)), key=lambda i: tuple(R[i]))
            for i in range(0, len(o), 15):
                f.write('   '.join('%d' % x['ndegen'][j] for j in o[i:i + 15]) + '\n')
            for i in o:
                if x['tb']:
                    f.write('\n %d %d %d\n' % tuple(R[i]))
                for b in range(x['size']):
                    for a in range(x['size']):
                        f.write('%s %d %d %.6f %.6f\n' % ('' if x['tb'] else '%d %d %d'
                            % tuple(R[i]), a + 1, b + 1, H[i, a, b].real, H[i, a, b].imag))
            if x['tb']:
                f.write('\n 0 0 0\n 1 1 0.5 0.0 0.5 0.0 0.5 0.0\n')
    def read(self, rng, p, x, divide):
        if rng.random() < 0.5:
            R, H = EL.read_hrdat(p, divide)
        else:
            ryd = rng.random() < 0.5
            m = EL.Model(self.path(p, x) if rng.random() < 0.3 and not x['tb'] else p, divide_ndegen=divide,
                rydberg=ryd)
            R, H = m.R, m.data * (Ry if ryd else 1)
            assert m.size == x['size'] and m.rydberg == ryd
        return dict(R=R.tolist(), H=cnorms(H))
    def convert(self, rng, p, p2):
        m = EL.Model(p, rydberg=rng.random() < 0.5)
        d = m.data.copy()
        m.to_hrdat(p2)
        return bool((m.data == d).all())
    divide = None

class Bands(Kind):
    def gen(self, rng):
        nk, nb, d = rng.randint(1, 4), rng.choice((1, 2, 9, 10, 11, 21, 5)), rng.choice((3, 3, 6))
        return dict(k=norms(numbers(rng, (nk, 3), 6)), e=norms(numbers(rng, (nb, nk), d, 99)),
            cols=rng.choice((10, 10, 1, 3)), d=d)
    def write(self, rng, x, p):
        k, e = np.array(x['k'], dtype=float), np.array(x['e'], dtype=float)
        kw = dict()
        if x['cols'] != 10:
            kw['cols'] = x['cols']
        if x['d'] != 3:
            kw['fmt'] = '%%12.%df' % x['d']
        k0, e0 = k.copy(), e.copy()
        EL.write_bands(p, k, e, **kw)
        return bool((k == k0).all() and (e == e0).all())
    def read(self, rng, p, x, divide):
        k, _, e = EL.read_bands(p)
        return dict(k=norms(k), e=norms(e))

class Wmat(Kind):
    skip = fixed = 3
    def gen(self, rng):
        n, size = rng.randint(1, 5), rng.randint(1, 3)
        return dict(R=[list(r) for r in vectors(rng, n)], size=size,
            W=cnorms(complexes(rng, (n, size, size), 9, 99)))
    def write(self, rng, x, p):
        m = EE.Model()
        W = np.array(x['W'], dtype=float)
        m.R, m.data, m.size = np.array(x['R']), W[..., 0] + 1j * W[..., 1], x['size']
        d = m.data.copy()
        m.to_Wmat(p)
        return bool((m.data == d).all())
    def read(self, rng, p, x, divide):
        if rng.random() < 0.5:
            R, W = misc.read_dat_mat(p)
        else:
            m = EE.Model(Wmat=p)
            R, W = m.R, m.data
        return dict(R=R.tolist(), W=cnorms(W))
    def convert(self, rng, p, p2):
        EE.Model(Wmat=p).to_Wmat(p2)
        return True

class BandU(Kind):
    def gen(self, rng):
        nQ, nk = rng.randint(1, 3), rng.randint(1, 2)
        return dict(nQ=nQ, nk=nk, binary=rng.random() < 0.4,
            U=cnorms(complexes(rng, nQ * nk ** 4, 9, 99)))
    def lines(self, p):
        if not p.endswith('.npy'):
            return tokens(p)
        return cnorms(np.load(p).ravel())
    def path(self, p, x):
        return p + '.npy' if x['binary'] else p
    def write(self, rng, x, p):
        U = np.array(x['U'], dtype=float)
        U = (U[:, 0] + 1j * U[:, 1]).reshape((x['nQ'],) + (x['nk'],) * 4)
        V = U.copy()
        EE.write_band_Coulomb_interaction(p if rng.random() < 0.5 else self.path(p, x), U,
            binary=x['binary'])
        return bool((U == V).all())
    def read(self, rng, p, x, divide):
        U = EE.read_band_Coulomb_interaction(p if rng.random() < 0.5 else self.path(p, x),
            x['nQ'], x['nk'], binary=x['binary'], share=rng.random() < 0.5)
        return dict(U=cnorms(U.ravel()) if U.shape == (x['nQ'],) + (x['nk'],) * 4 else [])

class Quad(Kind):
    fixed = 1
    def gen(self, rng):
        Q = numbers(rng, (rng.randint(1, 3), 3, 3, 3), 9)
        Q = np.tril(Q) + np.tril(Q, -1).swapaxes(-2, -1)
        return dict(Q=norms(Q))
    def write(self, rng, x, p):
        Q = np.array(x['Q'], dtype=float)
        q = Q.copy()
        PH.write_quadrupole_fmt(p, Q)
        return bool((Q == q).all())
    def read(self, rng, p, x, divide):
        if rng.random() < 0.5:
            return dict(Q=norms(PH.read_quadrupole_fmt(p)))
        return dict(Q=norms(PH.Model(quadrupole_fmt=p).Q))

class Xsf(Kind):
    def gen(self, rng):
        nat, n = rng.randint(1, 3), [rng.randint(1, 4) for _ in range(3)]
        symbols = rng.random() < 0.5
        return dict(n=n, X=[rng.choice(('H', 'Ta', 'Fe1') if symbols else ('1', '73', '26'))
            for _ in range(nat)], tau=norms(numbers(rng, (nat, 3), 7, 20)),
            r0=norms(numbers(rng, 3, 6, 20)), a=norms(numbers(rng, (3, 3), 7, 20)),
            data=norms(np.round(numbers(rng, n, 5), 5)), header=rng.random() < 0.2)
    def write(self, rng, x, p):
        r0, a, tau, data = [np.array(x[k], dtype=float) for k in ('r0', 'a', 'tau', 'data')]
        if rng.random() < 0.3:
            data = np.asfortranarray(data)
        X = x['X'] if rng.random() < 0.5 or not x['X'][0].isdigit() else list(map(int, x['X']))
        c = data.copy()
        misc.write_xsf(p, r0, a, X, tau, tuple(x['n']) if x['header'] else data,
            only_header=x['header'])
        return bool((c == data).all())
    def foreign(self, rng, x, p):
        with open(p, 'w') as f:
            f.write('# comment\n CRYSTAL\n PRIMVEC\n 1 0 0\n 0 1 0\n 0 0 1\nPRIMCOORD\n %d 1\n'
                % len(x['X']))
            for X, t in zip(x['X'], x['tau']):
                f.write(' '.join([X] + t) + '\n')
            f.write('\nBEGIN_BLOCK_DATAGRID_3D\n3D_field\nBEGIN_DATAGRID_3D_UNKNOWN\n')
            for v in [list(map(str, x['n'])), x['r0']] + x['a']:
                f.write(' '.join(v) + '\n')
            if not x['header']:
                v = [x['data'][i][j][k] for k in range(x['n'][2]) for j in range(x['n'][1])
                    for i in range(x['n'][0])]
                for i in range(0, len(v), 6):
                    f.write(' '.join('%13.5e' % float(w) for w in v[i:i + 6]) + '\n')
            f.write('END_DATAGRID_3D\nEND_BLOCK_DATAGRID_3D\n')
    def lines(self, p):
        t = tokens(p)
        return t[t.index(['primcoord']):]
    def read(self, rng, p, x, divide):
        r0, a, X, tau, data = misc.read_xsf(p, only_header=x['header'])
        return dict(r0=norms(r0), a=norms(a), X=list(map(str, X)), tau=norms(tau),
            n=list(map(int, data if x['header'] else data.shape)),
            data=[] if x['header'] else norms(data))

class Cube(Kind):
    def gen(self, rng):
        x = Xsf().gen(rng)
        x['X'] = [rng.choice(('1', '73', '26')) for _ in x['X']]
        x['step'] = norms(numbers(rng, (3, 3), 6))
        x['a'] = norms(np.array(x['step'], dtype=float) * np.array(x['n'])[:, None])
        return x
    def foreign(self, rng, x, p):
        with open(p, 'w') as f:
            f.write('title\ncomment\n%5d %s\n' % (len(x['X']), ' '.join(x['r0'])))
            for n, v in zip(x['n'], x['step']):
                f.write('%5d %s\n' % (n, '  '.join(v)))
            for X, t in zip(x['X'], x['tau']):
                f.write('%5s 0.000 %s\n' % (X, ' '.join(t)))
            for plane in x['data']:
                for v in plane:
                    for i in range(0, len(v), 6):
                        f.write(' '.join('%13.5E' % float(w) for w in v[i:i + 6]) + '\n')
    def read(self, rng, p, x, divide):
        r0, a, X, tau, data = misc.read_cube(p, only_header=x['header'])
        return dict(r0=norms(r0), a=norms(a), X=list(map(str, X)), tau=norms(tau),
            n=list(map(int, data if x['header'] else data.shape)),
            data=[] if x['header'] else norms(data))

ROWS = ((1, 0, 0), (0.6, 0.8, 0), (0, -0.28, 0.96), (-0.48, 0.6, 0.64))

def atoms(rng):
    alat = rng.choice((1.0, 2.5, 4.0, 8.25))
    while True:
        a = [list(rng.choice(ROWS))] + numbers(rng, (2, 3), 3, 2).tolist()
        if abs(np.linalg.det(a)) > 0.1:
            break
    S = rng.sample(('C', 'Ta', 'S', 'Fe1', 'H', 'Se'), 3)
    M = {s: rng.choice((1.0, 4.0, 0.25, 2.25)) for s in S}
    iso = rng.random() < 0.35 # several masses per symbol
    at = []
    for _ in range(rng.randint(1, 3)):
        s = rng.choice(S[:2])
        at.append(dict(s=s, m=norm(rng.choice((1.0, 9.0)) if iso else M[s]),
            p=norms(numbers(rng, 3, 9, 2))))
    x = dict(atoms=at, alat=norm(alat), a=norms(a), eps=[], Z=[], alpha='')
    if rng.random() < 0.5:
        x['eps'] = norms(numbers(rng, (3, 3), 9))
        x['Z'] = norms(numbers(rng, (len(at), 3, 3), 7))
        if rng.random() < 0.7:
            x['alpha'] = rng.choice(('1', '0.5', '2.25'))
    return x

class Lattice(Kind):
    def geometry(self, x):
        alat = float(x['alat'])
        return [np.array([float(y['m']) for y in x['atoms']]),
            np.array(x['a'], dtype=float) * alat,
            np.array([y['p'] for y in x['atoms']], dtype=float) * alat,
            [y['s'] for y in x['atoms']]]
    def dielectric(self, x):
        if not x['eps']:
            return [None] * 3
        return [float(x['alpha']) if x['alpha'] else None, np.array(x['eps'], dtype=float),
            np.array(x['Z'], dtype=float)]
    def project(self, M, a, r, X, alph, eps, Z):
        alat = np.linalg.norm(a[0])
        return dict(atoms=[dict(s=s, m=norm(m), p=norms(t)) for s, m, t in zip(X, M, r / alat)],
            alat=norm(alat), a=norms(np.array(a) / alat), alpha='' if alph is None else norm(alph),
            eps=[] if eps is None else norms(eps), Z=[] if Z is None else norms(Z))
    def call(self, f, *args):
        copies = [np.copy(a) for a in args if isinstance(a, np.ndarray)]
        f(*args)
        return all((a == b).all() for a, b in zip([a for a in args
            if isinstance(a, np.ndarray)], copies))

class Flfrc(Lattice):
    def gen(self, rng):
        x = atoms(rng)
        x['n'] = [rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)]
        n = len(x['atoms'])
        if n > 2:
            x['n'][0] = 1
        x['C'] = norms(numbers(rng, [n, n] + x['n'] + [3, 3], 8))
        return x
    def write(self, rng, x, p):
        return self.call(PH.write_flfrc, p, np.array(x['C'], dtype=float), *self.geometry(x),
            *self.dielectric(x))
    def xml(self, rng, x, p):
        alat, nat = float(x['alat']), len(x['atoms'])
        S = list(dict.fromkeys((y['s'], y['m']) for y in x['atoms']))
        def row(v):
            return ' '.join(np.ravel(v))
        with open(p, 'w') as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n<Root>\n<GEOMETRY_INFO>\n')
            f.write('<NUMBER_OF_TYPES>%d</NUMBER_OF_TYPES>\n<NUMBER_OF_ATOMS>%d'
                '</NUMBER_OF_ATOMS>\n<BRAVAIS_LATTICE_INDEX>0</BRAVAIS_LATTICE_INDEX>\n'
                % (len(S), nat))
            f.write('<CELL_DIMENSIONS>%s 0 0\n0 0 0</CELL_DIMENSIONS>\n<AT>%s</AT>\n'
                % (x['alat'], row(x['a'])))
            for i, (s, m) in enumerate(S, 1):
                f.write('<TYPE_NAME.%d>%s</TYPE_NAME.%d><MASS.%d>%r</MASS.%d>\n' % (i, s, i, i,
                    float(m) / uRy, i))
            for i, y in enumerate(x['atoms'], 1):
                f.write('<ATOM.%d SPECIES="%s" INDEX="%d" TAU="%s"/>\n' % (i, y['s'],
                    S.index((y['s'], y['m'])) + 1, row(y['p'])))
            f.write('</GEOMETRY_INFO>\n<DIELECTRIC_PROPERTIES>\n')
            if x['eps']:
                f.write('<EPSILON>%s</EPSILON><ZSTAR>' % row(x['eps']))
                for i, z in enumerate(x['Z'], 1):
                    f.write('<Z_AT_.%d>%s</Z_AT_.%d>' % (i, row(z), i))
                f.write('</ZSTAR>\n')
            f.write('</DIELECTRIC_PROPERTIES>\n<INTERATOMIC_FORCE_CONSTANTS>\n')
            if x['alpha'] and x['eps']:
                f.write('<alpha_ewald>%s</alpha_ewald>\n' % x['alpha'])
            f.write('<MESH_NQ1_NQ2_NQ3>%d %d %d</MESH_NQ1_NQ2_NQ3>\n' % tuple(x['n']))
            for i in itertools.product(range(nat), range(nat), *map(range, x['n'])):
                C = x['C']
                for j in i:
                    C = C[j]
                t = 's_s1_m1_m2_m3.%d.%d.%d.%d.%d' % tuple(j + 1 for j in i)
                f.write('<%s><IFC>%s</IFC></%s>\n' % (t, row(np.array(C).T), t))
            f.write('</INTERATOMIC_FORCE_CONSTANTS>\n' + rng.choice(('</Root>\n', '</root>\n',
                '')))
    def read(self, rng, p, x, divide):
        phid, M, a, r, X, alph, eps, Z = PH.read_flfrc(p)
        return dict(self.project(M, a, r, X, alph, eps, Z), C=norms(phid))
    def convert(self, rng, p, p2):
        m = PH.Model(p, divide_mass=rng.random() < 0.5)
        d, u = m.data.copy(), m.M.copy()
        m.to_flfrc(p2)
        return bool((m.data == d).all() and (m.M == u).all())

class FlfrcXml(Flfrc):
    specified = False
    write = convert = None
    fixed = 10 ** 9
    name = 'flfrc'
    def path(self, p):
        return p + '.xml'
    def foreign(self, rng, x, p):
        self.xml(rng, x, p + '.xml')
    def read(self, rng, p, x, divide):
        return super().read(rng, p + '.xml', x, divide)

class Dyn(Lattice):
    fixed = 2
    def gen(self, rng):
        x = atoms(rng)
        x['alpha'] = ''
        n, nq = len(x['atoms']), rng.randint(1, 3)
        x['q'] = norms(numbers(rng, (nq, 3), 9))
        x['D'] = norms(numbers(rng, (nq, n, n, 3, 6), 8))
        return x
    def write(self, rng, x, p):
        alat = float(x['alat'])
        D = np.array(x['D'], dtype=float)
        D = (D[..., ::2] + 1j * D[..., 1::2]).swapaxes(2, 3)
        D = D.reshape((len(D), D.shape[1] * 3, -1))
        q = np.array(x['q'], dtype=float) * 2 * np.pi / alat
        d = D.copy()
        ok = self.call(PH.write_flfrc, p, (q, D if rng.random() < 0.7 else list(D)),
            *self.geometry(x), *self.dielectric(x))
        return ok and bool((d == D).all())
    def foreign(self, rng, x, p):
        S = list(dict.fromkeys((y['s'], y['m']) for y in x['atoms']))
        with open(p, 'w') as f:
            f.write('Dynamical matrix file\n\n%3d%5d  0 %s 0.0 0.0 0.0 0.0 0.0\nBasis vectors\n'
                % (len(S), len(x['atoms']), x['alat']))
            for v in x['a']:
                f.write('      %s\n' % '    '.join(v))
            for i, (s, m) in enumerate(S, 1):
                f.write("%12d  '%-3s'  %s\n" % (i, s, m))
            for i, y in enumerate(x['atoms'], 1):
                f.write('%5d%5d %s\n' % (i, S.index((y['s'], y['m'])) + 1, ' '.join(y['p'])))
            for q, D in zip(x['q'], x['D']):
                f.write('\n     Dynamical  Matrix in cartesian axes\n\n     q = (    %s ) \n\n'
                    % '   '.join(q))
                for i, d in enumerate(D, 1):
                    for j, e in enumerate(d, 1):
                        f.write('%5d%5d\n' % (i, j))
                        for v in e:
                            f.write('%12s%12s   %12s%12s   %12s%12s\n' % tuple(v[:2]
                                + v[2:4] + v[4:]) if all(len(w) < 12 for w in v)
                                else ' '.join(v) + '\n')
            if x['eps']:
                f.write('\n     Dielectric Tensor:\n\n')
                for v in x['eps']:
                    f.write('        %s\n' % '  '.join(v))
                f.write('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n\n')
                for i in rng.sample(range(len(x['Z'])), len(x['Z'])):
                    f.write('          atom # %4d\n' % (i + 1))
                    for v in x['Z'][i]:
                        f.write('        %s\n' % '  '.join(v))
            f.write('\n     Diagonalizing the dynamical matrix\n\n     q = (    %s ) \n\n'
                ' %s\n     freq (    1) =       0.1 [THz] =       3.3 [cm-1]\n' % (
                '   '.join(x['q'][0]), '*' * 74))
    def read(self, rng, p, x, divide):
        (q, D), M, a, r, X, alph, eps, Z = PH.read_flfrc(p)
        y = self.project(M, a, r, X, alph, eps, Z)
        del y['alpha']
        n = len(X)
        D = np.reshape(D, (len(D), n, 3, n, 3)).swapaxes(2, 3)
        D = np.stack([D.real, D.imag], axis=-1).reshape(D.shape[:-1] + (6,))
        return dict(y, q=norms(q * np.linalg.norm(a[0]) / (2 * np.pi)), D=norms(D))

class QList(Kind):
    def gen(self, rng):
        return dict(n=rng.randint(1, 12), q=[v + ['0'] for v in
            norms(numbers(rng, (rng.randint(1, 4), 2), 9))])
    def write(self, rng, x, p):
        q = np.array(x['q'], dtype=float)[:, :rng.choice((2, 3))]
        PH.write_q(p, q if rng.random() < 0.5 else q.tolist(), x['n'])
        return True
    def read(self, rng, p, x, divide):
        n, q = PH.read_q(p)
        return dict(n=list(n), q=norms(q))

class Coupling(Kind):
    divide = None
    def gen(self, rng):
        size, nat = rng.randint(1, 2), rng.randint(1, 2)
        Rk, Rg = vectors(rng, rng.randint(1, 3), 2), vectors(rng, rng.randint(1, 3), 2)
        dims = rng.choice((1, size))
        dims2 = rng.choice((1, nat))
        deg = lambda: rng.choice((1, 1, 2, 3, 0))
        dk = [[[deg() for _ in Rk] for _ in range(dims)] for _ in range(dims)]
        dg = [[[deg() for _ in Rg] for _ in range(dims2)] for _ in range(dims)]
        g, G = [], []
        for i in itertools.product(range(len(Rg)), range(3 * nat), range(len(Rk)), range(size),
                range(size)):
            if rng.random() < 0.5:
                z = [rng.randint(-9, 9), rng.randint(-9, 9)]
                r, u, k, a, b = i
                A, B = (a, b) if dims > 1 else (0, 0)
                d = dk[B][A][k] * dg[A][u // 3 if dims2 > 1 else 0][r]
                if z != [0, 0]:
                    if d:
                        g.append(list(i) + z)
                    G.append(list(i) + [v * (d or 7) for v in z])
        return dict(size=size, nat=nat, Rk=[list(R) for R in Rk], Rg=[list(R) for R in Rg],
            dk=dk, dg=dg, g=g, G=G)
    def models(self, x):
        el, ph = EL.Model(), PH.Model()
        el.size, ph.nat, ph.size, ph.lr = x['size'], x['nat'], 3 * x['nat'], False
        ph.M = np.array([4.0, 9.0][:x['nat']])
        ph.divide_mass = True
        return el, ph
    def lines(self, p):
        return tokens(p + '.wigner')
    def path(self, p):
        return p + '.wigner'
    def write(self, rng, x, p):
        el, ph = self.models(x)
        one = all(d == 1 for ds in x['dk'] for e in ds for d in e) and len(x['dk']) == 1 \
            and len(x['dg'][0]) == 1 and all(d == 1 for d in x['dg'][0][0])
        m = EP.Model(el=el, ph=ph, divide_mass=rng.random() < 0.5,
            divide_ndegen=one and rng.random() < 0.5)
        data = np.zeros((len(x['Rg']), ph.size, len(x['Rk']), el.size, el.size), dtype=complex)
        for *i, re, im in x['G']:
            data[tuple(i)] = re + 1j * im
        if m.divide_mass:
            data /= np.sqrt(np.repeat(ph.M, 3))[:, None, None, None]
        fill(m, x['Rg'], x['Rk'], data)
        m.dk, m.dg = np.array(x['dk']), np.array([x['dg']])
        m.to_epmatwp(p)
        return bool((m.data == data).all())
    def foreign(self, rng, x, p):
        el, ph = self.models(x)
        G = np.zeros((len(x['Rg']), ph.size, len(x['Rk']), el.size, el.size), dtype=complex)
        for *i, re, im in x['G']:
            G[tuple(i)] = re + 1j * im
        G.swapaxes(-2, -1).astype(np.complex128).tofile(p + '.epmatwp')
        dk, dg = np.array(x['dk']), np.array(x['dg'])
        if rng.random() < 0.5: # binary variant of lattice vectors
            i = lambda v: np.array(v, dtype=np.int32)
            with open(p + '.bin', 'wb') as f:
                i([len(dk), dg.shape[1], len(x['Rk'])]).tofile(f)
                i(x['Rk']).tofile(f)
                i(dk).tofile(f)
                i([len(x['Rg'])]).tofile(f)
                i(x['Rg']).tofile(f)
                i(dg.transpose(1, 2, 0)).tofile(f) # since QE 6.8
        with open(p + '.wigner', 'w') as f:
            f.write('%d 0 %d %d %d\n' % (len(x['Rk']), len(x['Rg']), len(dk), dg.shape[1]))
            for r, R in enumerate(x['Rk']):
                f.write('%d %d %d\n' % tuple(R))
                for v in dk[:, :, r].T:
                    f.write(' '.join(map(str, v)) + '\n')
            for r, R in enumerate(x['Rg']):
                f.write('%d %d %d\n' % tuple(R))
                for v in dg[:, :, r]:
                    f.write(' '.join(map(str, v)) + '\n')
    def model(self, rng, p, x, divide):
        el, ph = self.models(x)
        w = p + '.wigner'
        if os.path.exists(p + '.bin') and len(x['dk']) != len(x['Rg']):
            w = p + '.bin'
        m = EP.Model(p + '.epmatwp', w, el, ph, divide_mass=rng.random() < 0.5,
            divide_ndegen=divide, shared_memory=rng.random() < 0.3)
        return m
    def read(self, rng, p, x, divide):
        m = self.model(rng, p, x, divide)
        data = m.data.copy()
        if m.divide_mass:
            data *= np.sqrt(np.repeat(m.ph.M, 3))[:, None, None, None]
        g = []
        for i in zip(*np.nonzero(abs(data) > 1e-9)):
            z = complex(data[i])
            g.append(list(map(int, i)) + ints([z.real, z.imag]))
        return dict(Rk=m.Rk.tolist(), Rg=m.Rg.tolist(), g=g)
    def convert(self, rng, p, p2, x):
        self.model(rng, p, x, True).to_epmatwp(p2)
        return True

class Array(Kind):
    def gen(self, rng):
        shape = [rng.randint(1, rng.choice((2, 3, 11))) for _ in range(rng.randint(1, 3))]
        c = rng.random() < 0.5
        v = complexes(rng, shape, 8) if c else numbers(rng, shape, 8)
        return dict(shape=shape, complex=c, items=self.items(v))
    def items(self, v):
        return [[list(i), [norm(v[i].real), norm(v[i].imag)] if np.iscomplexobj(v)
            else [norm(v[i])]] for i in np.ndindex(*v.shape)]
    def array(self, x):
        v = np.zeros(x['shape'], dtype=complex if x['complex'] else float)
        for i, w in x['items']:
            v[tuple(i)] = complex(*map(float, w)) if x['complex'] else float(w[0])
        return v
    def write(self, rng, x, p):
        v = self.array(x)
        w = v.copy()
        EP.write_data(p, v)
        return bool((v == w).all())
    def read(self, rng, p, x, divide):
        v = EP.read_data(p)
        return dict(shape=list(v.shape), complex=np.iscomplexobj(v), items=self.items(v))

class Eig(Kind):
    def gen(self, rng):
        return dict(e=norms(numbers(rng, (rng.randint(1, 3), rng.randint(1, 4)), 9)))
    def path(self, p):
        return p + '.eig'
    def foreign(self, rng, x, p):
        with open(p + '.eig', 'w') as f:
            for k in range(len(x['e'][0])):
                for b in range(len(x['e'])):
                    f.write('%5d%5d   %s\n' % (b + 1, k + 1, x['e'][b][k]))
    def read(self, rng, p, x, divide):
        return dict(e=norms(EL.read_wannier90_eig_file(p, len(x['e']), len(x['e'][0]))))

class Xml(Kind):
    specified = False
    fixed = 10 ** 9
    def gen(self, rng):
        x = dict(nQ=rng.randint(1, 3), modes=rng.randint(1, 3), nk=rng.randint(1, 2),
            nb=rng.randint(1, 3), angle=rng.choice((60, 90, 120)), angle0=rng.choice((0, 0, 15)))
        x['g'] = cnorms(complexes(rng, (x['nQ'], x['modes'], x['nk'], x['nk'], x['nb'],
            x['nb']), 9))
        return x
    def write(self, rng, x, p):
        g = np.array(x['g'], dtype=float)
        g = g[..., 0] + 1j * g[..., 1]
        if x['nb'] == 1 and rng.random() < 0.5:
            g = g[..., 0, 0]
        h = g.copy()
        EP.write_xml_files(p + '.%d.%d', g, angle=x['angle'], angle0=x['angle0'])
        return bool((g == h).all())
    def foreign(self, rng, x, p):
        g = np.array(x['g'], dtype=float)
        a = elphmod.bravais.translations(x['angle'], x['angle0'])
        b = elphmod.bravais.reciprocals(*a)
        for iq, v in enumerate(g, 1):
            for ir, w in enumerate(v, 1):
                with open('%s.%d.%d' % (p, iq, ir), 'w') as f:
                    f.write('<Root>\n<NUMBER_OF_K type="integer">%d</NUMBER_OF_K>\n'
                        '<NUMBER_OF_BANDS type="integer">%d</NUMBER_OF_BANDS>\n'
                        % (x['nk'] ** 2, x['nb']))
                    ks = list(np.ndindex(x['nk'], x['nk']))
                    rng.shuffle(ks)
                    for k in ks:
                        c = (k[0] * b[0] + k[1] * b[1]) / x['nk']
                        f.write('<COORDINATES_XK>\n%.15f %.15f 0.0\n</COORDINATES_XK>\n'
                            '<PARTIAL_ELPH>\n' % tuple(c))
                        for j in range(x['nb']):
                            for i in range(x['nb']):
                                f.write('%.12e %.12e\n' % tuple(w[k][i, j]))
                        f.write('</PARTIAL_ELPH>\n')
                    f.write('</Root>\n')
    def pick(self, rng, x):
        q, r, b = [rng.sample(range(n), rng.randint(1, n)) if rng.random() < 0.5
            else list(range(n)) for n in (x['nQ'], x['modes'], x['nb'])]
        return dict(q=q, r=r, b=b)
    def read(self, rng, p, x, divide, pick):
        with open(p + '.1.1') as f:
            old = 'iotk' in f.read()
        q, r, b = pick['q'], pick['r'], pick['b']
        g = EP.read_xml_files(p + '.%d.%d', x['nQ'] if q == list(range(x['nQ'])) else q,
            x['modes'] if r == list(range(x['modes'])) else r,
            b[0] if len(b) == 1 and rng.random() < 0.5 else b, x['nb'], x['nk'],
            squeeze=len(b) == 1 and rng.random() < 0.5,
            status=False, angle=x['angle'], angle0=x['angle0'], old=old)
        if g.ndim == 4:
            g = g[..., np.newaxis, np.newaxis]
        return dict(g=cnorms(g))

KINDS = dict(hr=Hr(), bands=Bands(), wmat=Wmat(), bandU=BandU(), quad=Quad(), xsf=Xsf(),
    cube=Cube(), flfrc=Flfrc(), flfrcxml=FlfrcXml(), dyn=Dyn(), qlist=QList(),
    coupling=Coupling(), array=Array(), eig=Eig(), xml=Xml())

def history(rng, key, n, scratch):
    steps, now = [], {}
    names = ['one', 'two']
    kinds = rng.sample(sorted(KINDS), 2)
    folder = os.path.join(scratch, key)
    os.mkdir(folder)
    def path(name):
        k, x = now[name]
        p = os.path.join(folder, name)
        if type(k) in (BandU, Hr):
            return k.path(p, x)
        return k.path(p) if hasattr(k, 'path') else p
    for _ in range(n):
        name = rng.choice(names)
        p = os.path.join(folder, name)
        e = dict(name=name, kind='', x={}, to='', exc='', kept=True, lines=[], result={},
            divide=True, layout=True, pick=dict(q=[], r=[], b=[]))
        if name not in now or rng.random() < 0.25:
            kname = rng.choice(kinds)
            k = KINDS[kname]
            x = k.gen(rng)
            e.update(op='write', kind=getattr(k, 'name', kname), x=x)
            if k.foreign is not None and (not hasattr(k, 'write') or k.write is None
                    or rng.random() < 0.4):
                e['op'] = 'foreign'
            for f in os.listdir(folder):
                # what has been there is overwritten, or belongs to another kind
                if f.startswith(name) and (name in now and now[name][0] is not k
                        or f.endswith('.bin') or type(k) in (BandU, Hr)):
                    os.remove(os.path.join(folder, f))
            now[name] = k, x
            def work():
                if e['op'] == 'foreign':
                    k.foreign(rng, x, p)
                else:
                    e['kept'] = k.write(rng, x, p)
        else:
            k, x = now[name]
            op = rng.choice(('read', 'read', 'respace', 'convert'))
            other = names[1 - names.index(name)]
            if type(k) is Dyn and 'Diagonalizing' in open(p).read():
                op = 'read'
            if op == 'respace' and k.fixed < 1000 and not path(name).endswith('.npy'):
                e['op'] = op
                def work():
                    respace(rng, path(name), k.fixed)
            elif op == 'convert' and getattr(k, 'convert', None) is not None \
                    and type(k) is not FlfrcXml and not (type(k) is Flfrc and x['eps']
                    and not x['alpha']):
                e.update(op=op, to=other)
                p2 = os.path.join(folder, other)
                for f in os.listdir(folder):
                    if f.startswith(other):
                        os.remove(os.path.join(folder, f))
                y = x
                if type(k) is Hr:
                    o = sorted(range(len(x['R'])), key=lambda i: x['R'][i])
                    y = dict(x, tb=False, R=[x['R'][i] for i in o], Q=[x['Q'][i] for i in o],
                        H=[x['Q'][i] for i in o], ndegen=[1] * len(o))
                elif type(k) is Coupling:
                    y = dict(x, G=x['g'], dk=[[[1] * len(x['Rk'])]],
                        dg=[[[1] * len(x['Rg'])]])
                now[other] = k, y
                def work():
                    e['kept'] = k.convert(rng, p, p2, *[x] * (type(k) is Coupling))
            else:
                e['op'] = 'read'
                if k.divide is None:
                    e['divide'] = rng.random() < 0.6
                if type(k) is Xml:
                    e['pick'] = k.pick(rng, x)
                def work():
                    e['result'] = k.read(rng, p, x, e['divide'], *[e['pick']]
                        * (type(k) is Xml))
        ok, v = call(work, timeout=60)
        if ok != 'ok':
            e['exc'] = v
        elif e['op'] != 'read':
            name = e['to'] or name
            ok, v = call(lambda: now[name][0].lines(p if type(k) is Coupling and not e['to']
                else os.path.join(folder, name) if type(k) is Coupling else path(name)))
            if ok != 'ok':
                e['exc'] = v
            else:
                e['lines'] = v
                e['layout'] = not (e['op'] == 'foreign' and k is KINDS['dyn']) \
                    and now[name][0].specified and not path(name).endswith('_tb.dat')
        steps.append(e)
        if e['exc']:
            break
    shutil.rmtree(folder)
    return dict(key=key, start=dict(op='start', names=names), steps=steps)

def run(c):
    c.explore('FilesDesign', 'SPECIFICATION Spec\nINVARIANTS Faithful Distinguished\nCHECK_DEADLOCK '
        'FALSE\nCONSTANTS\nDepth = %d\n' % c.q(2, 3))
    recs = []
    for i in range(c.q(1200, 8000)):
        key = 'history-%d' % i
        if c.only and not fnmatch.fnmatch(key, c.only):
            continue
        rng = random.Random('%s-%d' % (c.seed, i))
        recs.append(history(rng, key, rng.randint(3, 9), c.scratch))
    c.judge('FilesTrace', recs, 'Agree', histories=True)
