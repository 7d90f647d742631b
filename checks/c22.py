"""Objects, arrays, and functions kept in files between runs."""
import itertools
import parallel, scenarios
from common import *

def functions(rng):
    """Files of functions with exact values and the exact content expected."""
    normalize = rng.random() < 0.5
    shape = [rng.choice((2, 3, 2)) for _ in range(3)]
    cells = (shape[0] - 1) * (shape[1] - 1) * (shape[2] - 1)
    size = shape[0] * shape[1] * shape[2]
    # volume element 1: determinant of spanning vectors equals number of points
    a = [[size, 0, 0], [rng.randint(-1, 1), 1, 0], [0, rng.randint(-1, 1), -1]]
    W, expect = [], []
    for _ in range(rng.randint(1, 4)):
        norm, squares = rng.choice(((1, [1]), (3, [1, 2, 2]), (2, [1, 1, 1, 1]), (2, [2]),
            (6, [4, 4, 2])))
        w = [s * rng.choice((1, -1)) for s in squares] + [0] * size
        w = w[:size] if not normalize else w[:max(size, len(squares))][:size]
        rng.shuffle(w)
        W.append(w)
        expect.append([6 // norm * x if normalize else 6 * x for x in w])
    nest = lambda x: [[[x[(i * shape[1] + j) * shape[2] + k] for k in range(shape[2])]
        for j in range(shape[1])] for i in range(shape[0])]
    scale = cells
    r0 = [rng.randint(-2, 2) for _ in range(3)]
    r = [[[[cells * r0[x] + i * cells // (shape[0] - 1) * a[0][x]
        + j * cells // (shape[1] - 1) * a[1][x] + k * cells // (shape[2] - 1) * a[2][x]
        for x in range(3)] for k in range(shape[2])] for j in range(shape[1])]
        for i in range(shape[0])]
    X = [rng.choice(('C', 'Ta', '16')) for _ in range(rng.randint(1, 3))]
    tau = [[rng.randint(-9, 9) for _ in range(3)] for _ in X]
    wf = dict(shape=shape, a=a, r0=r0, X=X, tau=tau, W=W, scale=scale, normalize=normalize)
    return wf, [[nest(w) for w in expect], r, tau, X, 10 ** 4]

def program(rng, n, segment):
    ops = []
    for _ in range(n):
        kind = rng.choice(('set', 'get', 'get', 'save', 'load', 'load', 'wf'))
        op = dict(op=kind, slot=rng.randint(0, 3) if kind in ('set', 'get') else rng.randint(1, 3))
        if kind in ('set', 'get'):
            op.update(old=rng.random() < 0.5)
        if kind == 'set':
            i = rng.randrange(scenarios.THINGS)
            op.update(id=i if i % 19 else 0)
        if kind == 'save':
            txt = rng.random() < 0.4
            shape = rng.choice(([3], [2, 3], [4, 2], [3, 3]) if txt else ([3], [2, 3], [3, 2],
                [2, 3, 2], [], [4, 2, 1]))
            size = 1
            for s in shape:
                size *= s
            dtype = '<f8' if txt else rng.choice(('<f8', '<i8', '<f4', '<c16'))
            data = [rng.randint(-99, 99) for _ in range(size)]
            op.update(txt=txt, dtype=dtype, fortran=rng.random() < 0.5, data=[shape, data])
        if kind == 'load':
            op.update(shared=rng.random() < 0.5)
        if kind == 'wf':
            op.update(buffered=rng.random() < 0.75, shared=rng.random() < 0.5,
                stop=rng.choice((0, 0, 0, 1, 2, 3)))
        ops.append(op)
    return ops

def observe(get, where, part):
    out = []
    for key, folder, wf, segments in part:
        os.makedirs(folder)
        steps = []
        for i, (layout, ops, schedule) in enumerate(segments):
            r = get(layout).run(('bufferfiles', dict(folder=folder, program=ops, wf=wf, seed=i)),
                schedule)
            if r['fate'] != 'finished' or any(r['excs']):
                steps.append(dict(op='run', exc=' '.join([r['fate']] + r['excs'])[:200], seen=[]))
                break
            for j, op in enumerate(ops):
                seen = [x[j][0] for x in r['results']]
                exc = max((x[j][1] for x in r['results']), key=len)
                steps.append(dict(op, seen=seen, exc=exc, interrupted=exc == 'stop'))
        shutil.rmtree(folder)
        out.append((key, steps))
    return out

def run(c):
    c.explore('Buffers', 'SPECIFICATION Spec\nINVARIANTS LastStored Finishes\n'
        'CHECK_DEADLOCK FALSE\nCONSTANTS\nP = %d\nMaxLength = %d\nObjects = {1, 2}\n'
        % c.q((3, 4), (3, 5)))
    rng = c.rng
    plan = []
    wanted = {}
    layouts = [[0], [0, 0], [0, 1], [0, 0, 1], [0, 1, 0], [0, 0, 0, 1]]
    for i in range(c.q(110, 800)):
        wf, expect = functions(rng)
        key = 'history-%d' % i
        segments = [(rng.choice(layouts), program(rng, rng.randint(2, 8), s),
            'random:%d' % rng.randrange(1000)) for s in range(rng.randint(1, 4))]
        plan.append(([0], (key, os.path.join(c.scratch, key), wf, segments), None))
        wanted[key] = expect
    recs = []
    for key, steps in parallel.spread(each, plan, chunk=4):
        recs.append(dict(key=key, start=dict(op='start', slots=3, wf=wanted[key]),
            steps=[plainly(s) for s in steps]))
    c.judge('BuffersTrace', recs, 'Agree', histories=True)

def each(get, where, part):
    return observe(get, where, [p for p, _ in part])

def plainly(s):
    """Complex and empty data as integers; absent observations as nothing."""
    s = dict(s)
    if s['op'] == 'save':
        shape, data = s['data']
        if s['dtype'] == '<c16':
            s['data'] = [shape, [[x, 0] for x in data]]
    if s['op'] not in ('get', 'load', 'wf'):
        s['seen'] = []
    elif any(x is None for x in s['seen']):
        s['seen'] = []
    s.setdefault('slot', 0)
    return s
