"""Blocks of work, groups of processes, and memory in simulated parallel runs."""
import parallel
from common import *

def observe(get, where, part):
    out = []
    for job, schedule in part:
        r = get(where).run(job, schedule)
        out.append((parallel.label(where, (job[0], {}), schedule), where, job, r['results'],
            r['fate'], r['excs']))
    return out

def run(c):
    c.explore('DistributionDesign', 'SPECIFICATION Spec\n'
        'INVARIANTS Complete Valid Only WorkGrid NodeGrid\nCHECK_DEADLOCK FALSE\n'
        'CONSTANTS\nMaxN = %d\nMaxK = %d\nMaxP = %d\n' % c.q((8, 4, 4), (12, 6, 5)))

    rng = c.rng
    plan = []
    layouts = [[0], [0, 0], [0, 1], [0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 1, 2],
        [0, 0, 0, 1], [0, 1, 0, 1], [0, 0, 0, 0, 0], [0, 1, 1, 0, 2], [0, 0, 1, 1, 2, 2, 2]]
    if c.thorough:
        for _ in range(40):
            n = rng.randint(2, 8)
            layouts.append([0] + [rng.randrange(n) for _ in range(n - 1)])
    for where in layouts:
        for _ in range(c.q(2, 6)):
            n = len(where)
            part = lambda: rng.choice((None, 1, 2, 3)) if n > 1 else None
            work = [(rng.choice((0, 1, n - 1, n, n + 1, rng.randint(0, 40), 2 * n, 10 ** 5 + 3)),
                rng.choice((None, None, 1, 2, n, 5, 9)), part()) for _ in range(12)]
            grids = [(rng.randint(1, n + 3), part()) for _ in range(10)]
            mem = [(rng.random() < 0.7, rng.random() < 0.2, rng.choice(((2, 3), (4,), (0, 3),
                (2, 1, 2), (1, 1))), rng.choice(('<f8', '<c16', '<i8', '<f4')),
                rng.random() < 0.5) for _ in range(6)]
            for name, cases in [('distribution', work), ('workgrid', grids), ('memory', mem)]:
                plan.append((where, (name, dict(cases=cases, seed=1)),
                    'random:%d' % rng.randrange(1000)))
    D, G, M = [], [], []
    for key, where, job, results, fate, excs in parallel.spread(observe, plan, chunk=4):
        key += '#%d' % (len(D) + len(G) + len(M))
        if fate != 'finished' or any(excs):
            c.fail(key, 'raised ' + max(excs, key=len)[:150] if any(excs) else fate)
            continue
        for i, case in enumerate(job[1]['cases']):
            x = dict(key='%s#%d' % (key, i), seen=[r[i] for r in results])
            if job[0] == 'distribution':
                D.append(dict(x, size=case[0], chunks=case[1] or 0))
            elif job[0] == 'workgrid':
                G.append(dict(x, size=case[0]))
            else:
                n = 1
                for s in case[2]:
                    n *= s
                M.append(dict(x, where=where, shared=case[0], single=case[1],
                    shape=list(case[2]), elements=n, dtype=case[3]))
    c.judge('DistributionTrace', D, 'Work')
    c.judge('DistributionTrace', G, 'WorkGroups')
    c.judge('DistributionTrace', M, 'Memory')
