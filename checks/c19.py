"""Histories of input files of other programs."""
import re
from decimal import Decimal
from common import *
import numpy as np
import elphmod
elphmod.misc.verbosity = 0
from elphmod import bravais as B, misc, ph as PH

def canonical(x):
    """Significant digits and power of ten."""
    d = x if isinstance(x, Decimal) else Decimal(x) if isinstance(x, str) else Decimal(
        repr(x.item() if isinstance(x, np.generic) else x))
    if not d.is_finite():
        return str(d)
    s, digits, e = d.as_tuple()
    w = ''.join(map(str, digits)).lstrip('0')
    if not w:
        return '0e0'
    e += len(w) - len(w.rstrip('0'))
    return '-' * s + w.rstrip('0') + 'e%d' % e

def rounded(x):
    """Number given with nine decimals, possibly after some arithmetic."""
    return canonical('%.9f' % x)

def value(x):
    if x is None:
        return dict(t='none', v='')
    if isinstance(x, str):
        return dict(t='string', v=x)
    if isinstance(x, (bool, np.bool_)):
        return dict(t='logical', v='true' if x else 'false')
    if isinstance(x, (int, np.integer)):
        return dict(t='integer', v=canonical(int(x)))
    if isinstance(x, (float, np.floating)):
        return dict(t='real', v=canonical(float(x)))
    return dict(t=type(x).__name__, v=repr(x))

def options(d):
    return [dict(k=k, v=[value(y) for y in (v if isinstance(v, (list, tuple, np.ndarray))
        else [v])]) for k, v in d.items()]

def plain(unit):
    return re.sub('[{}() ]', '', unit.lower())

# -- contents of structures of the library -------------------------------------------

def pwi_content(s):
    s = dict(s)
    n = s.pop('nks', None)
    k = s.pop('k_points', [])
    assert n is None or n == len(k)
    species = [list(x) for x in zip(s.pop('at_species'), map(rounded, s.pop('mass')),
        s.pop('pp'))]
    coords, at, r = plain(s.pop('coords')), s.pop('at'), s.pop('r')
    ktyp = plain(s.pop('ktyp', ''))
    cell, units = s.pop('r_cell', []), plain(s.pop('cell_units', ''))
    return dict(opts=options(s), species=species, coords=coords, atoms=[
        [X, x] if isinstance(x, str) else [X] + list(map(rounded, x)) for X, x in zip(at, r)],
        ktyp=ktyp, k=[list(map(canonical, k))] if ktyp == 'automatic'
            else [list(map(rounded, x)) for x in k], units=units,
        cell=[list(map(rounded, x)) for x in cell])

def win_content(s):
    s = dict(s)
    return dict(mp=list(map(canonical, s.pop('mp_grid', []))),
        proj=[list(x) for x in s.pop('proj', {}).items()],
        path=[x.split() for x in s.pop('kpoint_path', [])],
        cell=[list(map(rounded, x)) for x in s.pop('unit_cell', [])],
        coords=s.pop('atoms_coords', ''),
        atoms=[[X] + list(map(rounded, x)) for X, x in zip(s.pop('at'), s.pop('atoms'))],
        k=[list(map(rounded, x)) for x in s.pop('kpoints', [])], opts=options(s))

def matdyn_content(s):
    s = dict(s)
    n, q = s.pop('nq'), s.pop('q')
    assert n == len(q)
    return dict(q=[list(map(rounded, x)) for x in q], opts=options(s))

def plain_content(s):
    return dict(opts=options(s))

def namelists_content(s):
    return dict(opts=[dict(k=[n, o['k']], v=o['v']) for n, d in s.items() for o in options(d)])

# -- files by others --------------------------------------------------------------------

S, I, R, L = 'string', 'integer', 'real', 'logical'

OPTIONS = dict(
    pwi=dict(
        control=dict(title=S, prefix=S, outdir=S, pseudo_dir=S, calculation=S, tprnfor=L,
            tstress=L, nstep=I, forc_conv_thr=R),
        system=dict(ibrav=I, a=R, b=R, c=R, cosbc=R, cosac=R, cosab=R, ecutwfc=R, ecutrho=R,
            nbnd=I, occupations=S, smearing=S, degauss=R, nosym=L, noinv=L, tot_charge=R,
            assume_isolated=S, nspin=I, noncolin=L, lspinorb=L, tot_magnetization=R,
            starting_magnetization=[R], celldm=[R], space_group=I, uniqueb=L,
            origin_choice=I, rhombohedral=L),
        electrons=dict(electron_maxstep=I, conv_thr=R, diagonalization=S, diago_full_acc=L,
            mixing_beta=R, startingpot=S, startingwfc=S, scf_must_converge=L),
        ions=dict(ion_dynamics=S, upscale=R),
        cell=dict(cell_dynamics=S, cell_dofree=S, press=R, press_conv_thr=R)),
    ph=dict(inputph=dict(prefix=S, outdir=S, fildyn=S, fildvscf=S, ldisp=L, nq1=I, nq2=I, nq3=I,
        tr2_ph=R, alpha_mix=R, cdfpt=L, subspace=S, cdfpt_bnd=I, cdfpt_orb=I)),
    q2r=dict(input=dict(fildyn=S, flfrc=S, zasr=S)),
    matdyn=dict(input=dict(flfrc=S, flfrq=S, fldos=S, fleig=S, flvec=S, asr=S, loto_2d=L,
        q_in_band_form=L, q_in_cryst_coord=L)),
    epw=dict(inputepw=dict(prefix=S, outdir=S, dvscf_dir=S, wannierize=L, elph=L, epbwrite=L,
        epwwrite=L, epbread=L, epwread=L, use_ws=L, nbndsub=I, bands_skipped=S, dis_win_min=R,
        dis_win_max=R, dis_froz_min=R, dis_froz_max=R, proj=[S], num_iter=I, wdata=[S], nk1=I,
        nk2=I, nk3=I, nq1=I, nq2=I, nq3=I, nkf1=I, nkf2=I, nkf3=I, nqf1=I, nqf2=I, nqf3=I)))
OPTIONS['namelists'] = OPTIONS['pwi']

WIN = dict(num_bands=I, num_wann=I, dis_num_iter=I, num_iter=I, search_shells=I, dis_win_min=R,
    dis_win_max=R, dis_froz_min=R, dis_froz_max=R, write_hr=L, bands_plot=L, wannier_plot=L)

STRINGS = ('./work', '/tmp/x y', 'scf', 'a b', 'x = 1', 'wow!', '1', '1.0', '.true.', 'T', 'f',
    '', 'Ta:l=2,mr=1', 'exclude_bands = 1:5', 'a,b;c', '___1___x', "it's", 'say "so"', '&system', 'under__score', '(1)', 'n(2)=3',
    '-1d0', 'all', '# no', 'None', 'x/')

def number(rng, d=9, big=20):
    return Decimal(rng.choice((rng.randint(-big, big), rng.randint(-big * 10 ** d,
        big * 10 ** d)))) * (Decimal(10) ** -rng.choice((0, d))) + 0

def literal(rng, x, exponents=True):
    """Decimal number in one of the formats of Fortran."""
    s = '%.9f' % x
    s = s.rstrip('0')
    if s[0:2] == '0.' and rng.random() < 0.3 and len(s) > 2:
        s = s[1:]
    elif s.endswith('.'):
        s = rng.choice((s + '0', s, s + '00'))
    if exponents and rng.random() < 0.3:
        e = rng.randint(-9, 9)
        s += rng.choice('eEdD') + rng.choice(('%d', '%+d', '%+03d')) % e
    return rng.choice(('', '', '+')) + s if not s.startswith('-') else s

def written(rng, t, exponents=True):
    if t == S:
        s = rng.choice(STRINGS)
        return rng.choice([q for q in '\'"' if q not in s]).join(('', s, ''))
    if t == I:
        return rng.choice(('%d', '%d', '%+d')) % rng.choice((0, 1, -1, rng.randint(-999, 999)))
    if t == L:
        return rng.choice(('.true.', '.false.', '.TRUE.', '.False.', 'T', 'F', 't', 'f', '.t.',
            '.F.', 'true', 'False'))
    return literal(rng, number(rng), exponents)

def mixed(rng, s):
    return rng.choice((s, s, s.upper(), s.capitalize()))

COMMENTS = ('', '', '', '! note', "! don't = / &x", '! "nat = 7', '!')

def namelist(rng, name, opts, fixed, lines):
    """Random namelist with given options."""
    items = list(fixed)
    for k, t in opts.items():
        if isinstance(t, list):
            n = rng.randint(1, 3)
            style = rng.randrange(3)
            start = rng.choice((1, 1, 2))
            key = mixed(rng, k) + rng.choice(('', ' ') if style else ('',))
            vs = [written(rng, t[0]) for _ in range(n)]
            if style == 0 and start == 1:
                items.append((key, rng.choice((', ', ' ', ',')).join(vs)))
            elif style == 1:
                items.append(('%s(%d)' % (key, start), ', '.join(vs)))
            else:
                some = rng.sample(range(start, start + n), rng.randint(1, n))
                items.extend(('%s(%d)' % (key, i), vs[i - start]) for i in some)
        else:
            items.append((mixed(rng, k), written(rng, t)))
    rng.shuffle(items)
    out = ['&' + mixed(rng, name)]
    for k, v in items:
        item = k + rng.choice((' = ', '=', '= ', '  =  ')) + v
        if rng.random() < 0.2 and not '!' in re.sub('\'.*?\'|".*?"', '', out[-1]) \
                and not out[-1].startswith('&'):
            out[-1] += rng.choice((', ', '; ', ' ')) + item
        else:
            out.append(rng.choice(('', '  ', '\t')) + item + rng.choice(('', '', ',', ' ')))
        if lines:
            out[-1] += rng.choice(COMMENTS)
            if rng.random() < 0.1:
                out.append(rng.choice(('', '! comment line', "!it's nbnd = 3")))
    if rng.random() < 0.15 and not '!' in out[-1]:
        out[-1] += ' /'
    else:
        out.append(rng.choice(('/', ' /', '/ ')))
    return out

def some(rng, opts, p=0.4):
    return {k: t for k, t in opts.items() if rng.random() < p}

def vector(rng, n=3, d=9, style=True):
    return rng.choice((' ', '  ', '\t')).join((literal(rng, number(rng, d), False)
        if style else str(number(rng))) for _ in range(n))

def unit(rng, u):
    return rng.choice(('%s', '%s', '{%s}', '{ %s }', '(%s)')) % rng.choice((u, u, u.upper()))

def compose_pwi(rng):
    groups = OPTIONS['pwi']
    ntyp = rng.randint(1, 3)
    nat = rng.randint(ntyp, 4)
    X = rng.sample(('Ta', 'S', 'Fe1', 'C', 'H'), ntyp)
    out = [] if rng.random() < 0.8 else ['', '! my input file']
    calc = rng.choice((None, 'scf', 'relax', 'vc-relax', 'md', 'vc-md', 'bands'))
    for g in groups:
        opts = some(rng, groups[g])
        fixed = []
        if g == 'control':
            opts.pop('calculation', None)
            if calc:
                fixed = [('calculation', repr(calc))]
        elif g == 'system':
            fixed = [('ntyp', str(ntyp)), (mixed(rng, 'nat'), str(nat))]
        elif g == 'ions' and calc not in ('relax', 'vc-relax', 'md', 'vc-md') \
                or g == 'cell' and calc not in ('vc-relax', 'vc-md'):
            continue
        out += namelist(rng, g, opts, fixed, True) + [''] * rng.randint(0, 1)
    cards = [['ATOMIC_SPECIES'] + ['%s  %s  %s' % (x, literal(rng, abs(number(rng, 6)), False),
        x + '.upf') for x in X]]
    sg = rng.random() < 0.1
    cards.append(['ATOMIC_POSITIONS ' + unit(rng, 'crystal_sg' if sg else rng.choice(('alat',
        'bohr', 'angstrom', 'crystal'))) if sg or rng.random() < 0.9 else 'ATOMIC_POSITIONS']
        + ['%s %s' % (x, rng.choice(('1a', '2c', '8h')) if sg else vector(rng))
            for x in [rng.choice(X) for _ in range(nat)]])
    style = rng.choice(('automatic', 'gamma', 'list', 'none', 'list'))
    if style == 'automatic':
        cards.append(['K_POINTS ' + unit(rng, 'automatic'), '%d %d %d  %d %d %d' % tuple(
            [rng.randint(1, 12) for _ in range(3)] + [rng.randint(0, 1) for _ in range(3)])])
    elif style == 'gamma':
        cards.append(['K_POINTS ' + unit(rng, 'gamma')])
    elif style == 'list':
        n = rng.randint(1, 3)
        cards.append(['K_POINTS ' + unit(rng, rng.choice(('crystal', 'tpiba', 'crystal_b')))
            if rng.random() < 0.8 else 'K_POINTS', str(n)] + [vector(rng) + ' ' + (str(
                rng.randint(0, 50)) if rng.random() < 0.5 else literal(rng, abs(number(rng)),
                False)) for _ in range(n)])
    if rng.random() < 0.5:
        cards.append(['CELL_PARAMETERS ' + unit(rng, rng.choice(('alat', 'bohr', 'angstrom')))
            if rng.random() < 0.8 else 'CELL_PARAMETERS'] + [vector(rng) for _ in range(3)])
    rng.shuffle(cards)
    for card in cards:
        card[0] = card[0].lower() if rng.random() < 0.2 else card[0]
        card = [rng.choice(('', '', ' ')) + l + rng.choice(('', '', '', ' ! comment', ' '))
            for l in card]
        out += card + rng.choice(([], [], [''], ['', '! next']))
    return '\n'.join(out) + '\n'

def compose_win(rng):
    parts = []
    eq = lambda: rng.choice((' = ', '=', ': ', ' : ', '  '))
    for k, t in some(rng, WIN).items():
        parts.append([mixed(rng, k) + eq() + written(rng, t, False)
            + rng.choice(('', '', ' ! note', ' # note'))])
    mp = [rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)]
    nk = int(np.prod(mp))
    parts.append(['mp_grid' + eq() + '%d %d %d' % tuple(mp)])
    def block(name, lines):
        return [rng.choice(('begin ', 'begin ', 'Begin  ', ' begin ')) + name] + [
            rng.choice(('', '  ')) + l + rng.choice(('', '', ' ')) for l in lines] + [
            'end ' + name]
    if rng.random() < 0.7:
        pos = rng.sample(('Ta', 'S', 'f=0.5,0.5,0.0', 'c=0,0,0', 'Se2'), rng.randint(1, 3))
        parts.append(block('projections', [p + rng.choice((':', ' : ', ': ')) + rng.choice((
            's', 'l=2,mr=1', 'pz', 'dz2; dxy', 'l=1:z=0,0,1', 'sp3d2')) for p in pos]))
    if rng.random() < 0.6:
        parts.append(block('kpoint_path', ['G 0.0 0.0 0.0  %s %s' % (x, vector(rng))
            for x in rng.sample('MKA', 2)]))
    parts.append(block('unit_cell_cart', [vector(rng) for _ in range(3)]))
    parts.append(block('atoms_' + rng.choice(('frac', 'cart')), [rng.choice(('Ta', 'S', 'C'))
        + ' ' + vector(rng) for _ in range(rng.randint(1, 3))]))
    w = rng.random() < 0.5
    parts.append(block('kpoints', [vector(rng, 4 if w else 3) for _ in range(nk)]))
    rng.shuffle(parts)
    out = []
    for p in parts:
        out += p + rng.choice(([], [], [''], ['! comment'], ['# num_wann = 3', '']))
    return '\n'.join(out) + '\n'

def compose_plain(kind):
    def compose(rng):
        out = ['title line'] if kind == 'ph' and rng.random() < 0.5 else []
        for g in OPTIONS[kind]:
            out += namelist(rng, g, some(rng, OPTIONS[kind][g]), [], True)
        return '\n'.join(out) + '\n'
    return compose

def compose_matdyn(rng):
    out = namelist(rng, 'input', some(rng, OPTIONS['matdyn']['input']), [], True)
    n = rng.randint(1, 4)
    out += [''] * rng.randint(0, 1) + [' %d' % n] + [vector(rng, 3) + ' ' + (str(rng.randint(0,
        50)) if rng.random() < 0.6 else literal(rng, number(rng), False)) for _ in range(n)]
    return '\n'.join(out) + '\n'

class Kind:
    def __init__(self, compose, read, write, content):
        self.compose, self.read, self.write, self.content = compose, read, write, content

KINDS = dict(
    pwi=Kind(compose_pwi, B.read_pwi, B.write_pwi, pwi_content),
    win=Kind(compose_win, B.read_win, B.write_win, win_content),
    ph=Kind(compose_plain('ph'), B.read_ph, B.write_ph, plain_content),
    q2r=Kind(compose_plain('q2r'), B.read_q2r, B.write_q2r, plain_content),
    matdyn=Kind(compose_matdyn, B.read_matdyn, B.write_matdyn, matdyn_content),
    epw=Kind(compose_plain('epw'), B.read_epw, B.write_epw, plain_content),
    namelists=Kind(compose_plain('namelists'), misc.read_namelists, None, namelists_content))

def edited(rng, t):
    """Value set by user."""
    if t == S:
        return rng.choice(STRINGS)
    if t == I:
        x = rng.randint(-99, 99)
        return rng.choice((x, np.int64(x), np.int32(x)))
    if t == L:
        x = rng.random() < 0.5
        return rng.choice((x, np.bool_(x)))
    x = float(number(rng, 6)) * 10.0 ** rng.choice((0, 0, -12, 12))
    return rng.choice((x, np.float64(x)))

ROWS = ((1, 0, 0), (0.5, 0.75, 0), (0, -0.28, 0.96), (-0.5, 0.5, 1))

def lattice(rng):
    alat = rng.choice((1.0, 2.5, 4.0, 8.25))
    cell = [list(map(float, r)) for r in (ROWS[0], ROWS[1], rng.choice(ROWS[2:]))]
    X = rng.sample(('Ta', 'S', 'C'), 3)
    M = {x: rng.choice((1.0, 12.0, 180.5)) for x in X}
    at = [rng.choice(X[:2]) for _ in range(rng.randint(1, 3))]
    pos = [[float(number(rng, 6, 2)) for _ in range(3)] for _ in at]
    x = dict(atoms=[dict(s=s, m=canonical(M[s]), p=list(map(rounded, p)))
        for s, p in zip(at, pos)], alat=canonical(alat), cell=[list(map(rounded, r))
        for r in cell], ktyp='', k=[], opts=[])
    kwargs = dict()
    if rng.random() < 0.5:
        kwargs = dict(ecutwfc=40.0, calculation='scf', nbnd=np.int64(12), tot_charge=np.float64(
            -0.25))
        x['opts'] = options(kwargs)
    if rng.random() < 0.3:
        kwargs.update(ktyp='gamma')
        x['ktyp'] = 'gamma'
    elif rng.random() < 0.5:
        kwargs.update(ktyp='automatic', k_points=(3, 4, 1, 0, 0, 1))
        x.update(ktyp='automatic', k=[list(map(canonical, (3, 4, 1, 0, 0, 1)))])
    m = PH.Model()
    m.nat, m.size = len(at), 3 * len(at)
    m.a = np.array(cell) * alat
    m.r = np.array(pos).dot(m.a)
    m.M = np.array([M[s] for s in at]) * misc.uRy
    m.atom_order = at
    return x, m, kwargs

def history(rng, key, n, scratch):
    kname = rng.choice(('pwi', 'pwi', 'pwi', 'win', 'win', 'ph', 'q2r', 'matdyn', 'epw',
        'namelists'))
    k = KINDS[kname]
    steps, struct = [], None
    path = os.path.join(scratch, key)
    for i in range(n):
        e = dict(op='', kind=kname, text=[], content=dict(opts=[]), exc='', kept=True, key='',
            values=[], x={})
        if not i:
            if kname == 'pwi' and rng.random() < 0.1:
                e['op'] = 'model'
                e['x'], m, kwargs = lattice(rng)
                ok, v = call(m.to_pwi, path, timeout=60, **kwargs)
            else:
                e['op'] = 'compose'
                ok, v = 'ok', None
                with open(path, 'w') as f:
                    f.write(k.compose(rng))
        else:
            op = 'read' if struct is None else 'read' if k.write is None else rng.choice((
                'read', 'edit', 'write', 'write'))
            if op == 'read' and k.write is not None and steps[-1]['op'] == 'edit':
                op = 'write'
            e['op'] = op
            if op == 'read':
                def work():
                    new = k.read(path)
                    e['content'] = k.content(new)
                    return new
                ok, v = call(work, timeout=60)
                if ok == 'ok':
                    struct = v
            elif op == 'edit':
                ok, v = 'ok', None
                groups = OPTIONS.get(kname, dict(win=WIN))
                name, t = rng.choice([(a, b) for g in groups if g not in ('ions', 'cell')
                    for a, b in groups[g].items() if a != 'calculation'])
                if isinstance(t, list):
                    new = [edited(rng, t[0]) for _ in range(rng.randint(1, 3))]
                    new = rng.choice((new, new, tuple(new), np.array(new) if t[0] != S else new))
                else:
                    new = edited(rng, t)
                struct[name] = new
                e.update(key=name, values=options({name: new})[0]['v'])
            else:
                def work():
                    before = digest(struct)
                    k.write(path, struct)
                    e['kept'] = digest(struct) == before
                ok, v = call(work, timeout=60)
        if ok != 'ok':
            e['exc'] = v
        elif e['op'] in ('compose', 'write', 'model'):
            with open(path) as f:
                e['text'] = list(f.read())
        steps.append(e)
        if e['exc']:
            break
    if os.path.exists(path):
        os.remove(path)
    return dict(key=key, start=dict(op='start', exc=''), steps=steps)

def run(c):
    c.explore('InputsDesign', 'SPECIFICATION Spec\nINVARIANT Parsed\nCHECK_DEADLOCK FALSE\n'
        'CONSTANT\nDepth = %d\n' % c.q(1, 2))
    recs = []
    for i in range(c.q(1500, 12000)):
        key = 'history-%d' % i
        if c.only and not fnmatch.fnmatch(key, c.only):
            continue
        rng = random.Random('%s-%d' % (c.seed, i))
        recs.append(history(rng, key, rng.randint(3, 7), c.scratch))
    for i in range(0, len(recs), 1500):
        c.judge('InputsTrace', recs[i:i + 1500], 'Agree', histories=True)
