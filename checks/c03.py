"""Traces of parallel runs of the real code, judged by Mpi."""
import os, subprocess
import parallel
from common import *

LAYOUTS = [[0, 0], [0, 1], [0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 0, 0, 0],
    [0, 0, 1, 1], [0, 1, 0, 1], [0, 0, 0, 1, 1]]
MORE = [[0, 1, 2], [0, 0, 1, 2], [0, 1, 1, 1], [0, 1, 0, 0], [0, 1, 2, 0, 1],
    [0] * 5, [0, 0, 1, 1, 2, 2], [0, 1, 0, 1, 0, 1, 0]]

def trace(get, where, part):
    out = []
    for job, schedule in part:
        r = get(where).run(job, schedule)
        out.append((parallel.label(where, job, schedule), where, r['trace'],
            r['comms'], r['fate'], r['excs']))
    return out

def record(key, where, events, comms, fate, excs):
    """Processes, communicators and windows are numbered from one."""
    return dict(key=key, start=dict(n=len(where),
        comms=[[k + 1, [r + 1 for r in m]] for k, m in sorted(comms.items())]),
        steps=[dict(rank=e['rank'] + 1, op=e['op'], comm=e['comm'] + 1,
            root=e['root'], number=e['number'] + 1, dtype=e['dtype'], into=e['into'],
            count=e['count'] + 1, counts=[n + 1 for n in e['counts']],
            reads=e['reads'], writes=e['writes']) for e in events
            if e['comm'] >= 0] + [dict(op='stop')])

def run(c):
    design = [(2, 2, '{"B", "X", "R", "S", "!", "?", "."}', 'Exact'),
        (2, 3, '{"B", "X", "R", "!", "?"}', '')]
    if c.thorough:
        design += [(3, 2, '{"B", "b", "X", "x", "R", "r", "!", "?"}', ''),
            (2, 3, '{"B", "X", "R", "S", "!", "?"}', 'Exact')]
    for n, l, code, exact in design:
        c.explore('MpiDesign', 'SPECIFICATION Spec\nINVARIANTS Safe %s\n'
            'CHECK_DEADLOCK FALSE\nCONSTANTS\nN = %d\nL = %d\nCode = %s\n'
            % (exact, n, l, code), name='MpiDesign %d x %d' % (n, l), timeout=1500)

    plan = []
    for i, where in enumerate(c.q(LAYOUTS, LAYOUTS + MORE)):
        for job in parallel.jobs(c.q(1, 4)):
            name, par = job
            par = dict(par, seed=par['seed'] + 10 * i)
            plan.append((where, (name, par), c.rng.choice(('asc', 'desc',
                'random:%d' % c.rng.randrange(1000)))))
    watch = os.path.join(c.scratch, 'watch.so')
    if subprocess.call(['gcc', '-O2', '-shared', '-fPIC', '-o', watch,
            os.path.join(VERIF, 'lib', 'watch.c')]):
        watch = None
        c.notes.append('reads of shared memory are not observed (no compiler)')
    got = parallel.spread(trace, plan, watch=watch)
    strange = [i for i, x in enumerate(got) if any(x[5]) or x[4] != 'finished']
    if watch and strange: # not because of us?
        for i, x in zip(strange, parallel.spread(trace, [plan[i] for i in strange])):
            got[i] = x
    for key, where, events, comms, fate, excs in got:
        if any(excs):
            c.fail(key, 'raised ' + max(excs, key=len)[:150], dict(excs=excs))
    records = [record(*x) for x in got if not any(x[5])]
    for i in range(0, len(records), 3000):
        c.judge('MpiTrace', records[i:i + 3000], verdict='Agree', histories=True)
    c.notes.append('%d parallel runs, layouts %s' % (len(got), sorted({''.join(
        map(str, x[1])) for x in got})))
