"""Random small models with exact integer data, and their projection."""
import numpy as np
from common import *
import elphmod

def entries(rows, data, scale=1):
    """Projection of (R, data) for the specification."""
    rows = ints(rows)
    raw = []
    d = np.array(data)
    if d.ndim == 3:
        for n, a, b in zip(*np.nonzero((abs(d) > 1e-9) | ~np.isfinite(d))):
            z = complex(d[n, a, b])
            raw.append([int(n) + 1, int(a), int(b)] + ints(
                [z.real, z.imag], scale))
    return rows, raw

def nz(A, scale=1):
    A = np.asarray(A)
    return [[int(a), int(b), ints(A[a, b].real, scale)]
        for a, b in zip(*np.nonzero((abs(A.real) > 1e-9) | ~np.isfinite(A)))]

def lattice_vectors(rng, n, span=2, dim=3):
    box = [(i, j, k) for i in range(-span, span + 1)
        for j in range(-span if dim > 1 else 0, span + 1 if dim > 1 else 1)
        for k in range(-span if dim > 2 else 0, span + 1 if dim > 2 else 1)]
    R = rng.sample(box, min(n, len(box)))
    if rng.random() < 0.8 and (0, 0, 0) not in R:
        R[0] = (0, 0, 0)
    return R

def values(rng, shape, unit=16, density=0.7, cplx=True):
    x = np.zeros(shape, dtype=complex)
    for i in np.ndindex(*shape):
        if rng.random() < density:
            x[i] = unit * rng.randint(-30, 30)
            if cplx and rng.random() < 0.6:
                x[i] += 1j * unit * rng.randint(-30, 30)
    if not x.any():
        x[(0,) * len(shape)] = unit
    return x if cplx else x.real.copy()

def el_model(rng, n=None, size=None, dup=False, hermitian=False, **kw):
    el = elphmod.el.Model()
    el.size = size or rng.randint(1, 3)
    R = lattice_vectors(rng, n or rng.randint(1, 7), **kw)
    if dup:
        R = R + [rng.choice(R) for _ in range(rng.randint(1, 3))]
        rng.shuffle(R)
    el.R = np.array(R, dtype=int)
    el.data = values(rng, (len(R), el.size, el.size))
    if dup and rng.random() < 0.7:
        el.data[rng.randrange(len(R))] = 0.0
        if not el.data.any():
            el.data[0, 0, 0] = 16
    el.rydberg = rng.random() < 0.5
    el.divide_ndegen = rng.random() < 0.5
    return el

def elel_model(rng, **kw):
    el = el_model(rng, **kw)
    W = elphmod.elel.Model()
    W.size, W.R, W.data = el.size, el.R, el.data
    return W

SPECIES = ['C', 'Ta', 'S', 'Se', 'H']

def ph_model(rng, n=None, nat=None, dup=False, lr=False, **kw):
    nat = nat or rng.randint(1, 2)
    while True:
        a = np.array([[rng.randint(-2, 4) for _ in range(3)] for _ in range(3)],
            dtype=float)
        if round(np.linalg.det(a)):
            break
    ph = elphmod.ph.Model(amass=np.array([float(rng.randint(1, 50))
            for _ in range(nat)]), at=a,
        tau=np.array([[float(rng.randint(-4, 4)) for _ in range(3)]
            for _ in range(nat)]),
        atom_order=[rng.choice(SPECIES) for _ in range(nat)],
        divide_mass=rng.random() < 0.5, divide_ndegen=rng.random() < 0.5,
        lr=False)
    if rng.random() < 0.5:
        ph.Z = np.array([[[float(rng.randint(-5, 5)) for _ in range(3)]
            for _ in range(3)] for _ in range(nat)])
    if rng.random() < 0.5:
        ph.Q = np.array([[[[float(rng.randint(-5, 5)) for _ in range(3)]
            for _ in range(3)] for _ in range(3)] for _ in range(nat)])
    R = lattice_vectors(rng, n or rng.randint(1, 5), **kw)
    if dup:
        R = R + [rng.choice(R) for _ in range(rng.randint(1, 3))]
        rng.shuffle(R)
    ph.R = np.array(R, dtype=int)
    ph.data = values(rng, (len(R), 3 * nat, 3 * nat), cplx=False, density=0.5)
    if dup and rng.random() < 0.7:
        ph.data[rng.randrange(len(R))] = 0.0
        if not ph.data.any():
            ph.data[0, 0, 0] = 16
    return ph

def meta(m):
    if isinstance(m, elphmod.ph.Model):
        sites = []
        n = max(len(m.M), len(m.r), len(m.atom_order))
        for i in range(m.nat if m.nat == n else n):
            sites.append(dict(r=ints(m.r[i]), m=ints(m.M[i]),
                s=str(m.atom_order[i]),
                Z=ints(m.Z[i]) if m.Z is not None else [],
                Q=ints(m.Q[i]) if m.Q is not None else []))
        return dict(a=ints(m.a), sites=sites, flags=[bool(m.divide_mass),
            bool(m.divide_ndegen), bool(m.lr)], nat=ints(m.nat))
    if isinstance(m, elphmod.el.Model):
        return dict(a=[], sites=[], flags=[bool(m.rydberg), bool(m.divide_ndegen)], nat=0)
    return dict(a=[], sites=[], flags=[], nat=0)

def observe(m, op, **args):
    rows, raw = entries(m.R, m.data)
    d = dict(op=op, exc='', rows=rows, raw=raw, size=int(m.size), meta=meta(m),
        at=3 if isinstance(m, elphmod.ph.Model) else 1)
    d.update(args)
    return d

BLANK = dict(rows=[], raw=[], size=0, meta=dict(a=[], sites=[], flags=[], nat=0),
    at=1, cells=[], N=[], gamma=[], M=[], order=[], sel=[], S=[], p=0, q=0,
    k4=[], shape=[])

def apply(m, step):
    """Apply one operation of the specification to a real model."""
    op = step['op']
    if op == 'super':
        s = m.supercell(*map(tuple, step['M']))
        N = getattr(s, 'N', step['M'])
        return s, observe(s, op, M=step['M'], cells=[ints(c) for c in s.cells],
            N=[ints(v) for v in N])
    if op == 'sparse':
        s = m.supercell(*map(tuple, step['M']), sparse=True)
        A = s.Ds if isinstance(m, elphmod.ph.Model) else s.Hs
        return m, dict(BLANK, op=op, exc='', M=step['M'],
            cells=[ints(c) for c in s.cells], gamma=nz(A.toarray()))
    if op == 'unit':
        u = m.unit_cell()
        return u, observe(u, op)
    if op == 'order':
        (m.order_atoms if hasattr(m, 'order_atoms') else m.order_orbitals)(
            *step['order'])
        return m, observe(m, op, order=step['order'])
    if op == 'shift':
        f = m.shift_atoms if hasattr(m, 'shift_atoms') else m.shift_orbitals
        s = slice(step['lo'], step['hi'], step.get('st'))
        f(s, tuple(step['S']))
        return m, observe(m, op, sel=list(range(units(m))[s]), S=step['S'])
    if op == 'std':
        p, q = step.get('p', 0), step.get('q', 0)
        m.standardize(**(dict(eps=p / q) if q else {}))
        return m, observe(m, op, p=p, q=q)
    if op == 'sym':
        p, q = step.get('p', 0), step.get('q', 0)
        if step.get('alias'):
            m.symmetrize()
        else:
            m.standardize(symmetrize=True, **(dict(eps=p / q) if q else {}))
        return m, observe(m, op, p=p, q=q)
    if op == 'clear':
        m.clear()
        return m, observe(m, op)
    f = getattr(m, 'H', None) or getattr(m, 'D', None) or m.W
    def out(g, **kw):
        return m, dict(BLANK, **dict(step, exc='', gamma=g, **kw))
    if op == 'H':
        return out(gz(f(*[x * np.pi / 2 for x in step['k4']])))
    if op == 'H6':
        z = f(*[x * np.pi / 3 for x in step['k4']])
        b = z.imag * 2 / np.sqrt(3)
        return out(gz(z.real - b / 2 + 1j * b))
    if op == 'v':
        return out(gz(m.v(*[x * np.pi / 2 for x in step['k4']])))
    if op == 'get':
        g = getattr(m, 't', None) or getattr(m, 'C', None) or m.WR
        return out(gz(g(*step['k4'])))
    if op == 'mesh':
        k = elphmod.bravais.mesh(*step['N'])
        if step.get('list'):
            k = k.tolist()
        g = elphmod.dispersion.sample(f, k)
        return out(gz(g), shape=list(g.shape))
    raise MachineryError(op)

def gz(g, cplx=True):
    """Nonzero elements with their indices."""
    g = np.asarray(g)
    out = []
    for i in zip(*np.nonzero((abs(g) > 1e-9) | ~np.isfinite(g))):
        z = complex(g[i])
        out.append(list(map(int, i)) + (ints([z.real, z.imag]) if cplx
            else [ints(z.real)]))
    return out

def run_history(key, m, plan, tr):
    """Replay operations on a real model and record what it does."""
    rec = dict(key=key, tr=tr, start=observe(m, 'start'), steps=[])
    for step in plan:
        if callable(step):
            step = step(m)
            if step is None:
                continue
        ok, v = call(apply, m, step)
        if ok == 'exc':
            rec['steps'].append(dict(BLANK, **dict(step, exc=v)))
            break
        m, o = v
        rec['steps'].append(o)
    return rec

# -- plans -------------------------------------------------------------------

def matrix(rng, vmax=6, span=2):
    kind = rng.random()
    while True:
        if kind < 0.3:
            M = [[0] * 3 for _ in range(3)]
            for i in range(3):
                M[i][i] = rng.choice((-2, -1, 1, 1, 2, 3))
        elif kind < 0.6:
            M = [[rng.randint(-span, span) for _ in range(2)] + [0]
                for _ in range(2)] + [[0, 0, rng.choice((1, 1, -1, 2))]]
        else:
            M = [[rng.randint(-span, span) for _ in range(3)] for _ in range(3)]
        if 0 < abs(round(np.linalg.det(M))) <= vmax:
            return M

def perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p

def shift(rng, n):
    lo = rng.randint(0, n - 1)
    hi = rng.randint(lo + 1, n)
    lo, hi, st = rng.choice(((lo, hi, 1), (lo, hi, None), (lo, None, 2),
        (None, hi, None), (lo - n, None, None), (None, None, None),
        (None, None, -1)))
    return dict(op='shift', lo=lo, hi=hi, st=st,
        S=[rng.randint(-2, 2) for _ in range(3)])

def units(m):
    return m.nat if isinstance(m, elphmod.ph.Model) else m.size

def eps_step(rng):
    p, q = rng.choice(((17, 47), (6, 47), (33, 47), (2, 43)))
    return dict(op='std', p=p, q=q)

def design(c, depth, start, props=None):
    """Explore the design model and return the histories it admits."""
    import json, re
    out = c.explore('ModelOps', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS Depth = %d\n Start = %d\n Emitting = TRUE\n'
        'INVARIANTS WellFormed UnitUndoesSuper SuperCounts OrderInvertible '
        'ShiftInvertible SymmetrizeHermitian ShiftIsGauge GammaRowSum Emit\n'
        % (depth, start), name='ModelOps depth %d start %d' % (depth, start))
    hists = []
    for h in re.findall(r'<<"HIST", "(.*)">>', out):
        hists.append(json.loads(h.replace('\\"', '"')))
    c.notes.append('%d histories emitted by ModelOps' % len(hists))
    return hists

def start_model(kind):
    """The start model of the design model, as a real object."""
    el = elphmod.el.Model()
    el.size = 2
    E = {1: [(0, 0, 0, 0, 0, 8, 0), (0, 0, 0, 1, 1, 16, 0),
             (0, 0, 0, 0, 1, 24, 8), (0, 0, 0, 1, 0, 24, -8),
             (1, 0, 0, 0, 0, 32, 40), (-1, 0, 0, 0, 0, 32, -40),
             (0, 1, 0, 1, 1, 0, 0), (0, 1, 0, 1, 0, 48, 0), (0, -1, 0, 0, 1, 48, 0)],
         2: [(0, 0, 0, 0, 1, 8, -16), (1, -1, 0, 1, 0, 24, 0),
             (0, 0, 2, 1, 1, 0, 32), (-1, 2, 0, 0, 0, 40, 0)]}[kind]
    R = sorted(set(e[:3] for e in E))
    el.R = np.array(R)
    el.data = np.zeros((len(R), 2, 2), dtype=complex)
    for e in E:
        el.data[R.index(e[:3]), e[3], e[4]] += e[5] + 1j * e[6]
    return el

def judge_histories(c, recs):
    return c.judge('ModelTrace', recs, spec='HSpec', histories=True,
        verdict='Agree', constants='')
