"""A message-passing machine under full control.

Every rank is a forked process that imports the real code against a stand-in
for mpi4py.  A coordinator lets exactly one rank run at a time, from one
communication call to its next, following a schedule.  Calls complete as early
as the standard admits (the root of a broadcast does not wait, contributors to
a gather do not wait, ...).  Memory shared by the ranks of a node is real
shared memory, poisoned when allocated; after every slice the coordinator
determines which bytes the rank has changed.  Everything is recorded.
"""
import ctypes
import mmap
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import types

POISON = 0x7f
SYNC = {'Barrier', 'Allgather', 'Allgatherv', 'Allreduce', 'Alltoall', 'allgather', 'alltoall',
    'allreduce', 'Split', 'Window', 'Dup'}
FROM_ROOT = {'Bcast', 'bcast', 'Scatter', 'Scatterv', 'scatter'}
TO_ROOT = {'Gather', 'Gatherv', 'gather', 'Reduce', 'reduce'}


class Pipe:
    def __init__(self, r, w):
        self.r, self.w = r, w

    def send(self, x):
        b = pickle.dumps(x, protocol=4)
        b = struct.pack('<q', len(b)) + b
        while b:
            n = os.write(self.w, b)
            b = b[n:]

    def recv(self, timeout=None):
        if timeout is not None:
            if not select.select([self.r], [], [], timeout)[0]:
                raise TimeoutError
        n = struct.unpack('<q', self._read(8))[0]
        return pickle.loads(self._read(n))

    def _read(self, n):
        b = b''
        while len(b) < n:
            c = os.read(self.r, min(n - len(b), 1 << 20))
            if not c:
                raise EOFError
            b += c
        return b


# -- the stand-in for mpi4py, in the process of a rank ---------------------

class Watch:
    """Which parts of shared memory does this process read?"""
    def __init__(self, path):
        self.lib = ctypes.CDLL(path) if path else None
        self.seen = []
        if self.lib:
            self.lib.watch_init(ctypes.c_long(20000))

    def add(self, address, n, number):
        if self.lib and n:
            seen = (ctypes.c_uint8 * (n // 8 + 1))()
            if self.lib.watch_add(ctypes.c_void_p(address), ctypes.c_ulong(n), seen) >= 0:
                self.seen.append((number, n, seen))

    def on(self):
        if self.lib:
            self.lib.watch_on()

    def off(self):
        """Stop and tell what has been read."""
        if not self.lib:
            return []
        import numpy as np
        self.lib.watch_off()
        reads = []
        for number, n, seen in self.seen:
            s = np.frombuffer(seen, dtype=np.uint8)
            d = np.flatnonzero(s)
            if len(d):
                cuts = np.flatnonzero(np.diff(d) > 1)
                reads += [[number, int(a) * 8, min(n, int(b) * 8 + 8)] for a, b in
                    zip(d[np.r_[0, cuts + 1]], d[np.r_[cuts, len(d) - 1]])]
                s[...] = 0
        return reads

    def clear(self):
        if self.lib:
            self.lib.watch_clear()
            self.seen = []


def fake_mpi(pipe, rank, size, where, watch):
    import numpy as np
    windows = [] # (address, length, number, map)

    class In_place:
        pass

    IN_PLACE = In_place()

    def touched(x):
        """Part of shared memory occupied by an array."""
        if not isinstance(x, np.ndarray) or not x.size:
            return []
        try:
            lo, hi = np.lib.array_utils.byte_bounds(x)
        except AttributeError:
            lo, hi = np.byte_bounds(x)
        return [[n, max(lo, a) - a, min(hi, a + l) - a] for a, l, n, _ in windows
            if lo < a + l and hi > a]

    def check(x):
        """What mpi4py accepts as buffer."""
        if isinstance(x, (list, tuple)):
            x = x[0]
        if not isinstance(x, np.ndarray):
            x = np.asarray(x) if isinstance(x, np.generic) else x
        if not isinstance(x, np.ndarray):
            try:
                x = np.frombuffer(x, dtype=np.uint8)
            except Exception:
                raise TypeError('message: expecting buffer')
        if x.dtype.kind not in 'biufc':
            raise KeyError('datatype %s' % x.dtype)
        if not (x.flags.c_contiguous or x.flags.f_contiguous):
            raise BufferError('ndarray is not contiguous')
        return x

    def raw(x):
        return x.tobytes('A')

    def fill(x, data, offset=0):
        """Put raw data into the memory of an array."""
        if not data:
            return
        if not x.flags.writeable:
            raise BufferError('buffer is read-only')
        flat = x.reshape(-1, order='A')
        if not np.shares_memory(flat, x):
            raise BufferError('no view')
        new = np.frombuffer(data, dtype=x.dtype)
        flat[offset:offset + len(new)] = new[:max(0, flat.size - offset)]

    def counted(x):
        """(array, counts, displacements) of a vector message."""
        if isinstance(x, np.ndarray):
            return x, None, None
        y = list(x)
        a, c, d = y[0], None, None
        if len(y) > 1:
            if isinstance(y[1], tuple) and len(y[1]) == 2 and hasattr(y[1][0], '__len__'):
                c, d = y[1]
            else:
                c = y[1]
        if len(y) > 2 and hasattr(y[2], '__len__') and not isinstance(y[2], str):
            d = y[2]
        if c is not None:
            c = [int(n) for n in np.ravel(c)]
        if d is not None:
            d = [int(n) for n in np.ravel(d)]
        return a, c, d

    class Comm:
        def __init__(self, number, members):
            self.number = number
            self.members = members
            self.rank = members.index(rank)
            self.size = len(members)

        def Get_rank(self): return self.rank
        def Get_size(self): return self.size

        def _call(self, op, data=None, root=0, dtype='', count=-1, counts=(), reads=(),
                into=''):
            e = dict(op=op, comm=self.number, root=root, dtype=dtype, count=count,
                counts=list(counts), reads=list(reads), into=into or dtype)
            pipe.send(('call', e, data, watch.off()))
            got = pipe.recv()
            watch.on()
            return got

        def Barrier(self): self._call('Barrier')
        barrier = Barrier

        def Bcast(self, buf, root=0):
            a = check(counted(buf)[0] if isinstance(buf, (list, tuple)) else buf)
            me = self.rank == root
            t = touched(a)
            got = self._call('Bcast', raw(a) if me else None, root, a.dtype.str, a.size,
                reads=t if me else ())
            if not me:
                fill(a, got)

        def bcast(self, obj=None, root=0):
            return self._call('bcast', obj if self.rank == root else None, root)

        def scatter(self, obj=None, root=0):
            return self._call('scatter', obj if self.rank == root else None, root)

        def gather(self, obj=None, root=0):
            return self._call('gather', obj, root)

        def allgather(self, obj=None):
            return self._call('allgather', obj)

        def alltoall(self, obj):
            return [x[self.rank] for x in self._call('allgather', obj)]

        def allreduce(self, obj, op=None):
            return reduce_(self._call('allreduce', obj), op)

        def reduce(self, obj, op=None, root=0):
            x = self._call('reduce', obj, root)
            return reduce_(x, op) if self.rank == root else None

        def Scatterv(self, send, recv, root=0):
            me = self.rank == root
            data, counts, t = None, (), []
            r = None if recv is IN_PLACE else check(recv)
            if me:
                a, c, d = counted(send)
                a = check(a)
                c = c or [a.size // self.size] * self.size
                d = d or [sum(c[:i]) for i in range(self.size)]
                flat = a.reshape(-1, order='A')
                if sum(c) > flat.size:
                    raise ValueError('message: buffer too small for requested count')
                data = [flat[i:i + n].tobytes() for i, n in zip(d, c)]
                counts, t = c, touched(a)
            got = self._call('Scatterv', data, root, r.dtype.str if r is not None else a.dtype.str,
                r.size if r is not None else c[root], counts, reads=t, into=a.dtype.str if me else '')
            if r is not None:
                fill(r, got)
        Scatter = Scatterv

        def Gatherv(self, send, recv, root=0):
            me = self.rank == root
            s = None if send is IN_PLACE else check(send)
            counts, a = (), None
            if me:
                a, c, d = counted(recv)
                a = check(a)
                c = c or [s.size] * self.size
                d = d or [sum(c[:i]) for i in range(self.size)]
                if sum(c) > a.size:
                    raise ValueError('message: buffer too small for requested count')
                counts = c
            got = self._call('Gatherv', None if s is None else raw(s), root,
                a.dtype.str if s is None else s.dtype.str, counts[root] if s is None else s.size,
                counts, reads=touched(s), into=a.dtype.str if me else '')
            if me:
                if a.dtype.str != (s if s is not None else a).dtype.str:
                    got = [x for x in got]
                for i, x in enumerate(got):
                    if x is not None:
                        fill(a, x[:c[i] * a.dtype.itemsize], d[i])
        Gather = Gatherv

        def Allgatherv(self, send, recv):
            s = None if send is IN_PLACE else check(send)
            a, c, d = counted(recv)
            a = check(a)
            c = c or [s.size if s is not None else a.size // self.size] * self.size
            d = d or [sum(c[:i]) for i in range(self.size)]
            if sum(c) > a.size:
                raise ValueError('message: buffer too small for requested count')
            flat = a.reshape(-1, order='A')
            mine = flat[d[self.rank]:d[self.rank] + c[self.rank]].tobytes() if s is None else raw(s)
            got = self._call('Allgatherv', mine, 0, a.dtype.str if s is None else s.dtype.str,
                c[self.rank] if s is None else s.size, c, reads=touched(s), into=a.dtype.str)
            for i, x in enumerate(got):
                fill(a, x[:c[i] * a.dtype.itemsize], d[i])
        Allgather = Allgatherv

        def Allreduce(self, send, recv, op=None):
            r = check(recv)
            s = r if send is IN_PLACE else check(send)
            got = self._call('Allreduce', raw(s), 0, s.dtype.str, s.size,
                reads=touched(s), into=r.dtype.str)
            new = reduce_([np.frombuffer(x, dtype=s.dtype) for x in got], op)
            fill(r, new.astype(r.dtype).tobytes())

        def Reduce(self, send, recv, op=None, root=0):
            me = self.rank == root
            r = check(recv) if me else None
            s = r if send is IN_PLACE else check(send)
            got = self._call('Reduce', raw(s), root, s.dtype.str, s.size,
                reads=touched(s), into=r.dtype.str if me else '')
            if me:
                new = reduce_([np.frombuffer(x, dtype=s.dtype) for x in got], op)
                fill(r, new.astype(r.dtype).tobytes())

        def Split(self, color=0, key=0):
            n, m = self._call('Split', (color, key or 0))
            return None if n is None else Comm(n, m)

        def Split_type(self, split_type, key=0, info=None):
            n, m = self._call('Split', (('node', where[rank]), key or 0))
            return Comm(n, m)

        def Dup(self):
            n, m = self._call('Split', (0, self.rank))
            return Comm(n, m)

        def Free(self): pass

        def Abort(self, code=0):
            raise SystemExit(code)

        def __eq__(self, other):
            return isinstance(other, Comm) and self.number == other.number

        def __hash__(self):
            return hash(self.number)

    def reduce_(xs, op):
        r = xs[0]
        for x in xs[1:]:
            r = op(r, x) if op else r + x
        return r

    class Win:
        @classmethod
        def Allocate_shared(cls, size, disp_unit=1, info=None, comm=None):
            self = cls()
            self.unit = disp_unit
            number, self.path, self.sizes = comm._call('Window', (int(size), int(disp_unit)))
            total = max(1, sum(self.sizes))
            with open(self.path, 'r+b') as f:
                self.map = mmap.mmap(f.fileno(), total)
            address = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
            windows.append((address, sum(self.sizes), number, self.map))
            watch.off()
            watch.add(address, sum(self.sizes), number)
            watch.on()
            return self

        def Shared_query(self, rank):
            a = sum(self.sizes[:rank])
            return memoryview(self.map)[a:a + self.sizes[rank]], self.unit

        def Fence(self, *_): self._no()
        def Sync(self): pass
        def Lock(self, *_): self._no()
        Unlock = Lock_all = Unlock_all = Lock
        def Free(self): pass
        def _no(self):
            raise NotImplementedError('one-sided synchronisation')

    MPI = types.ModuleType('mpi4py.MPI')
    MPI.COMM_WORLD = Comm(0, list(range(size)))
    MPI.COMM_SELF = Comm(-1 - rank, [rank])
    MPI.UNDEFINED = -32766
    MPI.COMM_TYPE_SHARED = 1
    MPI.IN_PLACE = IN_PLACE
    MPI.Win = Win
    MPI.Comm = MPI.Intracomm = Comm
    MPI.INFO_NULL = None
    MPI.SUM = lambda a, b: a + b
    MPI.PROD = lambda a, b: a * b
    MPI.MAX = lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b)
    MPI.MIN = lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b)
    MPI.LOR = lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else a or b
    MPI.LAND = lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else a and b
    MPI.Wtime = time.time
    MPI.Get_processor_name = lambda: 'node%d' % where[rank]
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = MPI
    pkg.rc = types.SimpleNamespace()
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = MPI
    return touched


def dirty():
    """Fresh memory holds garbage, never results of previous runs."""
    import numpy as np
    keep = []
    for n in range(1, 1024):
        for _ in range(8):
            keep.append(np.full(n, POISON, dtype=np.uint8))
    del keep


def poisoned():
    import numpy as np
    empty, empty_like = np.empty, np.empty_like

    def fill(a):
        if isinstance(a, np.ndarray) and a.dtype.kind in 'iufc' and a.size:
            a.view(np.ndarray).reshape(-1, order='A').view(np.uint8)[...] = POISON
        return a

    np.empty = lambda *a, **k: fill(empty(*a, **k))
    np.empty_like = lambda *a, **k: fill(empty_like(*a, **k))
    try:
        ctypes.CDLL(None).mallopt(-6, 0x80)
    except Exception:
        pass


def rank_process(pipe, rank, size, where, scratch, watch):
    os.chdir(scratch)
    null = os.open(os.devnull, os.O_RDWR)
    for i in (0, 1) if os.environ.get('VERIF_DEBUG') else (0, 1, 2):
        os.dup2(null, i)
    poisoned()
    touched = lambda x: []
    watch = Watch(watch)
    if size > 1:
        touched = fake_mpi(pipe, rank, size, where, watch)
    else:
        sys.modules['mpi4py'] = None # as if not installed
    pipe.recv()
    import common
    import scenarios
    import elphmod
    common.quiet()
    if not os.path.realpath(elphmod.__file__).startswith(os.path.realpath(common.REPO)):
        raise SystemExit('wrong elphmod')
    pipe.send(('done', None, ('', []), []))
    while True:
        try:
            job = pipe.recv()
        except EOFError:
            os._exit(0)
        exc, res, seen = '', None, []
        dirty()
        elphmod.misc.StatusBar.in_progress = rank != 0
        try:
            res = scenarios.run(*job, lambda x: seen.extend(touched(x)))
        except BaseException as e:
            exc = '%s: %s' % (type(e).__name__, str(e)[:200])
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        pipe.send(('done', res, (exc, seen), watch.off()))
        watch.clear()


class Deadlock(Exception):
    pass


class World:
    """A set of ranks on nodes."""
    def __init__(self, where, watch=None, preload=('numpy', 'scipy', 'scipy.linalg', 'scipy.sparse', 'scipy.optimize')):
        for m in preload:
            __import__(m)
        self.where = list(where)
        self.watch = watch
        self.size = len(where)
        self.scratch = tempfile.mkdtemp(prefix='verif-world-')
        shm = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.memory = tempfile.mkdtemp(prefix='verif-shm-', dir=shm)
        self.comms = {0: list(range(self.size))}
        self.start()

    def start(self):
        self.pids, self.pipes = [], []
        for r in range(self.size):
            a, b = os.pipe(), os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if not pid:
                try:
                    os.close(a[1]), os.close(b[0])
                    for p in self.pipes:
                        os.close(p.r), os.close(p.w)
                    rank_process(Pipe(a[0], b[1]), r, self.size, self.where, self.scratch,
                        self.watch)
                except BaseException:
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(a[0]), os.close(b[1])
            self.pids.append(pid)
            self.pipes.append(Pipe(b[0], a[1]))
        self.comms = {0: list(range(self.size))}
        self.fresh = 1
        self.run(('import',), 'asc')

    def kill(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        for p in self.pipes:
            os.close(p.r), os.close(p.w)
        self.pids, self.pipes = [], []

    def close(self):
        self.kill()
        shutil.rmtree(self.scratch, ignore_errors=True)
        shutil.rmtree(self.memory, ignore_errors=True)

    # -- one run -------------------------------------------------------------
    def run(self, job, schedule='asc', timeout=60):
        """Run a job on all ranks; returns results, exceptions, events, fate."""
        n = self.size
        self.trace = [] # everything in the order observed
        self.windows = {} # number: [path, map, snapshot, members, unit]
        self.queues = {} # (comm, k): dict of posts
        self.posted = {} # (rank, comm): number of calls so far
        self.pending = [None] * n
        self.reply = [job] * n # what to hand over when resumed
        self.ready = set(range(n))
        self.results = [None] * n
        self.excs = [''] * n
        self.made = set(self.comms)
        done = set()
        fate = 'finished'
        pick = self.policy(schedule)
        while len(done) < n:
            if not self.ready:
                fate = 'deadlock'
                break
            r = pick(sorted(self.ready))
            self.ready.discard(r)
            self.pipes[r].send(self.reply[r])
            try:
                kind, x, data, reads = self.pipes[r].recv(timeout)
            except (TimeoutError, EOFError):
                fate = 'rank died or does not answer'
                break
            self.observe(r, reads)
            if kind == 'done':
                self.results[r] = x
                self.excs[r], reads = data
                self.trace.append(self.event(r, 'end', reads=reads))
                done.add(r)
            else:
                self.post(r, x, data)
        for e in self.trace:
            e.pop('made', None), e.pop('window', None)
        res = dict(results=self.results, excs=self.excs, trace=self.trace, fate=fate,
            comms=dict(self.comms), schedule=schedule)
        for w in self.windows.values():
            w[1].close()
            os.unlink(w[0])
        for f in os.listdir(self.scratch):
            os.unlink(os.path.join(self.scratch, f))
        for k in set(self.comms) - self.made: # made in this run
            if job[0] != 'import':
                del self.comms[k]
        if fate != 'finished':
            self.kill()
            if job[0] != 'import':
                self.start()
            else:
                raise RuntimeError('import of the library fails in parallel: ' + fate)
        elif job[0] == 'import' and any(self.excs):
            raise RuntimeError('import of the library fails: %s' % self.excs)
        return res

    def policy(self, s):
        if s == 'asc':
            return lambda ready: ready[0]
        if s == 'desc':
            return lambda ready: ready[-1]
        kind, x = s.split(':')
        x = int(x)
        if kind == 'eager':
            return lambda ready: x if x in ready else ready[0]
        if kind == 'lazy':
            return lambda ready: ([r for r in ready if r != x] or [x])[0]
        rng = random.Random(x)
        return lambda ready: rng.choice(ready)

    def observe(self, r, reads):
        """Which bytes of shared memory has this rank changed?"""
        import numpy as np
        changed = []
        for number, w in self.windows.items():
            if r not in w[3] or not len(w[2]):
                continue
            now = np.frombuffer(w[1], dtype=np.uint8)[:len(w[2])]
            d = np.flatnonzero(now != w[2])
            if len(d):
                d = np.unique(d // w[4])
                cuts = np.flatnonzero(np.diff(d) > 1)
                los = d[np.r_[0, cuts + 1]]
                his = d[np.r_[cuts, len(d) - 1]]
                w[2][...] = now
                changed += [[number, int(a) * w[4], int(b + 1) * w[4]] for a, b in zip(los, his)]
            del now
        if changed or reads:
            self.trace.append(self.event(r, 'local', writes=changed, reads=reads))

    @staticmethod
    def event(r, op, **kw):
        return dict(dict(rank=r, op=op, comm=0, root=0, dtype='', into='', count=-1, counts=[],
            reads=[], writes=[], number=-1), **kw)

    def post(self, r, e, data):
        c = e['comm']
        e['number'] = self.posted.get((r, c), 0)
        self.posted[r, c] = e['number'] + 1
        e = self.event(r, **e)
        self.trace.append(e)
        q = self.queues.setdefault((c, e['number']), {})
        q[r] = (e, data)
        self.pending[r] = (c, e['number'])
        for s in range(self.size):
            if self.pending[s] == (c, e['number']):
                self.complete(s, c, q)

    def complete(self, r, c, q):
        members = self.comms.get(c, [r])
        e, _ = q[r]
        full = len(q) == len(members)
        root = members[e['root']] if e['root'] < len(members) else members[0]
        ops = {x['op'] for x, _ in q.values()}
        if len(ops) > 1: # calls do not match: nobody returns
            return
        op = e['op']
        if op in FROM_ROOT:
            if r != root and root not in q:
                return
            x = q[root][1]
            if op in ('Scatter', 'Scatterv', 'scatter'):
                x = x[members.index(r)] if x is not None else None
        elif op in TO_ROOT:
            if r == root:
                if not full:
                    return
                x = [q[s][1] for s in members]
            else:
                x = None
        else:
            if not full:
                return
            if op == 'Split':
                if 'made' not in q[members[0]][0]:
                    groups = {}
                    for s in members:
                        color, key = q[s][1]
                        groups.setdefault(color, []).append((key, members.index(s), s))
                    made = {}
                    for color, g in groups.items():
                        g = [s for _, _, s in sorted(g)]
                        self.comms[self.fresh] = g
                        for s in g:
                            made[s] = self.fresh
                        self.fresh += 1
                    q[members[0]][0]['made'] = made
                k = q[members[0]][0]['made'][r]
                x = (k, self.comms[k])
            elif op == 'Window':
                if 'window' not in q[members[0]][0]:
                    import numpy as np
                    number = self.fresh
                    self.fresh += 1
                    sizes = [q[s][1][0] for s in members]
                    unit = q[members[0]][1][1]
                    path = os.path.join(self.memory, 'w%d' % number)
                    with open(path, 'wb') as f:
                        f.write(bytes([POISON]) * max(1, sum(sizes)))
                    with open(path, 'r+b') as f:
                        m = mmap.mmap(f.fileno(), max(1, sum(sizes)))
                    self.windows[number] = [path, m,
                        np.full(sum(sizes), POISON, dtype=np.uint8), list(members), max(1, unit)]
                    q[members[0]][0]['window'] = (number, path, sizes)
                x = q[members[0]][0]['window']
            elif op == 'Barrier':
                x = None
            else:
                x = [q[s][1] for s in members]
        self.pending[r] = None
        self.reply[r] = x
        self.ready.add(r)
