"""Run scenarios on simulated parallel machines, distributed over the cores."""
import json
import os
import pickle
import random
import sys
import traceback


def label(where, job, schedule):
    name, par = job
    return '%s:%s:%s:%s' % (name, ','.join('%s=%s' % x for x in sorted(par.items())),
        ''.join(map(str, where)), schedule)


def jobs(seeds, pattern=None):
    """All scenarios with all their variants."""
    import scenarios
    out = []
    for name, (f, variants, weight) in scenarios.ALL.items():
        for v in variants:
            for s in range(max(1, int(weight * seeds))):
                out.append((name, dict(v, seed=s)))
    return out


def schedules(n):
    return ['eager:%d' % r for r in range(n)] + ['lazy:%d' % r for r in range(n)]


def work(tasks, task, pipe, watch):
    """Worker: fetches task numbers, sends back results."""
    import mpisim
    worlds = {}
    try:
        while True:
            b = os.read(task, 8)
            if len(b) < 8:
                break
            i = int(b)
            f, where, part = tasks[i]
            def get(w):
                if tuple(w) not in worlds:
                    if len(worlds) > 1:
                        for k in list(worlds):
                            if k != (0,):
                                worlds.pop(k).close()
                    worlds[tuple(w)] = mpisim.World(w, watch)
                return worlds[tuple(w)]
            try:
                r = f(get, where, part)
            except BaseException:
                r = traceback.format_exc()
            pipe.send((i, r))
    finally:
        for w in worlds.values():
            w.close()


def spread(f, plan, chunk=12, workers=None, watch=None):
    """Results of f(get, where, job, schedule) for all (where, job, schedule)."""
    import mpisim
    from common import MachineryError
    groups = {}
    for where, job, schedule in plan:
        groups.setdefault(tuple(where), []).append((job, schedule))
    tasks = []
    for where, xs in groups.items():
        for i in range(0, len(xs), chunk):
            tasks.append((f, list(where), xs[i:i + chunk]))
    workers = min(workers or os.cpu_count() or 1, len(tasks))
    tr, tw = os.pipe()
    procs = []
    sys.stdout.flush()
    for _ in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 0
            try:
                os.close(r), os.close(tw)
                work(tasks, tr, mpisim.Pipe(None, w), watch)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, mpisim.Pipe(r, None)))
    os.close(tr)
    import threading
    def feed():
        for i in range(len(tasks)):
            os.write(tw, b'%8d' % i)
        os.close(tw)
    threading.Thread(target=feed, daemon=True).start()
    import select
    out, n = {}, 0
    live = {p.r: p for _, p in procs}
    while live:
        for fd in select.select(list(live), [], [])[0]:
            try:
                i, r = live[fd].recv()
                if isinstance(r, str):
                    raise MachineryError(r)
                out[i] = r
            except EOFError:
                os.close(fd)
                del live[fd]
    for pid, _ in procs:
        os.waitpid(pid, 0)
    if len(out) < len(tasks):
        raise MachineryError('parallel workers died')
    return [x for i in range(len(tasks)) for x in out[i]]
