"""Results of parallel runs of the real code against serial runs."""
import parallel, scenarios
from common import *

def compare(get, where, part):
    out = []
    serial = {}
    for job, schedule in part:
        k = repr(job)
        if k not in serial:
            serial = {k: get([0]).run(job)}
        a = serial[k]
        if a['excs'][0] or a['fate'] != 'finished':
            out.append((parallel.label(where, job, 'serial'), len(where), [],
                [True], a['fate'], a['excs'] + a['fate'].split()))
            continue
        b = get(where).run(job, schedule)
        dev = [scenarios.deviation(a['results'][0], r) for r in b['results']]
        out.append((parallel.label(where, job, schedule), len(where), dev,
            [e != '' for e in b['excs']], b['fate'], b['excs']))
    return out

def run(c):
    c.explore('Parallel', 'SPECIFICATION Spec\nINVARIANTS Correct NoDeadlock\n'
        'CHECK_DEADLOCK FALSE\nCONSTANTS\nMaxN = %d\nMaxP = %d\n'
        % c.q((4, 3), (6, 4)))

    plan = []
    for where, seeds, share in c.q([([0, 0], 2, 1.0), ([0, 1], 1, 0.5),
            ([0, 0, 1], 1, 1.0), ([0, 1, 1], 1, 0.7), ([0, 0, 0], 1, 0.5),
            ([0, 1, 0, 1], 1, 0.4), ([0, 0, 1, 1, 1], 1, 0.2)],
            [([0, 0], 8, 1.0), ([0, 1], 3, 1.0), ([0, 0, 1], 4, 1.0),
            ([0, 1, 1], 4, 1.0), ([0, 1, 0], 3, 1.0), ([0, 0, 0], 4, 1.0),
            ([0, 1, 0, 1], 2, 1.0), ([0, 0, 1, 1], 2, 1.0), ([0, 0, 0, 1], 2, 0.6),
            ([0, 1, 2], 2, 0.6), ([0, 0, 1, 1, 1], 2, 0.5), ([0] * 7, 1, 0.5)]):
        for job in parallel.jobs(seeds):
            job = (job[0], dict(job[1], seed=job[1]['seed'] + 100 * len(where)))
            s = parallel.schedules(len(where))
            s += ['random:%d' % c.rng.randrange(1000)]
            for schedule in c.rng.sample(s, max(1, round(len(s) * share))):
                plan.append((where, job, schedule))
    got = parallel.spread(compare, plan)
    c.judge('ParallelTrace', [dict(key=key, processes=n, deviation=dev,
        raised=raised, fate=fate, excs=[str(e) for e in excs])
        for key, n, dev, raised, fate, excs in got])
    c.notes.append('%d parallel runs of %d scenarios' % (len(got), len(scenarios.ALL)))
