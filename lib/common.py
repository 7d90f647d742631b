"""Shared machinery of all checks: run real code, record, let TLC judge.

A check produces *records* (JSON objects describing inputs given to the real
code and observations of what it did, as integers) and hands them to TLC
together with a specification module that defines a verdict for every record.
TLC is the only judge: nothing here compares values.
"""
import fnmatch
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
EVIDENCE = os.path.join(VERIF, 'evidence')
BAD = 2000000011 # stands for "not the exact value expected here"
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def quiet():
    """Silence chatter of the library (status bars, warnings)."""
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')


def ints(x, scale=1, tol=1e-6):
    """Nested lists of integers from exact (integer-valued) floats.

    Anything that is not within tol of an integer becomes BAD, so that the
    specification rejects it.
    """
    import numpy as np
    x = np.asarray(x)
    if x.dtype == object:
        x = x.astype(complex)
    if np.iscomplexobj(x):
        x = np.stack([x.real, x.imag], axis=-1)
    x = np.asarray(x, dtype=float) * scale
    r = np.where(np.isfinite(x), x, BAD)
    n = np.round(r)
    bad = (abs(r - n) > tol) | (abs(n) > 2e9) | ~np.isfinite(x)
    n = np.where(bad, BAD, n)
    return n.astype(int).tolist()


def holds_bad(x):
    if isinstance(x, dict):
        return any(holds_bad(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(holds_bad(v) for v in x)
    return type(x) is int and abs(x) >= BAD


def purge(record, histories):
    """Values that are not the exact numbers expected from exact inputs never
    reach the arithmetic of the specification: the call counts as failed."""
    text = 'result is not an exact number'
    if histories:
        if holds_bad(record['start']):
            raise MachineryError('inexact start of ' + record['key'])
        for i, s in enumerate(record['steps']):
            if holds_bad(s):
                return dict(record, steps=record['steps'][:i] + [
                    dict(s, exc=s['exc'] or text)])
    elif holds_bad(record):
        if 'exc' not in record:
            raise MachineryError('inexact record ' + record['key'])
        return dict(record, exc=record['exc'] or text)
    return record


def digest(x):
    """Bitwise fingerprint of arbitrary data."""
    import hashlib, pickle
    import numpy as np

    def plain(x):
        if isinstance(x, np.ndarray):
            return ('a', x.shape, x.dtype.str, np.ascontiguousarray(x).tobytes())
        if isinstance(x, np.generic):
            return ('a', (), x.dtype.str, x.tobytes())
        if isinstance(x, dict):
            return ('d', [(plain(k), plain(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [plain(v) for v in x])
        if isinstance(x, (int, float, complex, str, bytes, bool, type(None))):
            return repr(x)
        if hasattr(x, 'toarray'):
            return plain(x.toarray())
        if callable(x) and not hasattr(x, '__dict__'):
            return 'callable'
        if hasattr(x, '__dict__') and not callable(x):
            return ('o', type(x).__name__,
                [(k, plain(v)) for k, v in sorted(vars(x).items())])
        if callable(x):
            return 'callable ' + getattr(x, '__name__', '')
        return repr(x)
    return hashlib.md5(repr(plain(x)).encode()).hexdigest()[:12]


def farm(f, n, seed, workers=8):
    """[f(rng, 0), f(rng, 1), ...] with independent random numbers, in parallel."""
    import multiprocessing, random
    global farmed
    def farmed(i):
        return f(random.Random('%s/%s/%d' % (seed, f.__name__, i)), i)
    with multiprocessing.get_context('fork').Pool(workers) as pool:
        return pool.map(_farmed, range(n), chunksize=max(1, n // (8 * workers)))


def _farmed(i):
    return farmed(i)


class Timeout(Exception):
    pass


lost = [] # seconds waited for calls that gave no answer


def call(f, *args, timeout=120, **kwargs):
    """Call the real code; turn any failure into a value ('ok', r) / ('exc', s).

    Once calls have given no answer, the property is violated already, and less
    and less patience is left for the others."""
    if sum(lost) > 200:
        return 'exc', 'Timeout: no patience left after earlier calls without answer'
    timeout = max(3, timeout >> len(lost))
    def handler(*_):
        lost.append(timeout)
        raise Timeout('no answer within %d s' % timeout)
    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(timeout)
    try:
        return 'ok', f(*args, **kwargs)
    except (KeyboardInterrupt, MachineryError):
        raise
    except BaseException as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        return 'exc', '%s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.exhaustive = []
        self.models = []
        self.samples = []
        self.bad = [] # (key, verdict, record)
        self.notes = []
        self.assumptions = []
        self.counts = {}
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.only = os.environ.get('VERIF_ONLY')

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def np_rng(self, salt=''):
        import numpy as np
        return np.random.default_rng(random.Random('%s-%d-%s'
            % (self.prop, self.seed, salt)).randrange(2 ** 62))

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=700, extra=(),
            heap='4g', simulate=None):
        meta = tempfile.mkdtemp(dir=self.scratch)
        cfgfile = os.path.join(meta, 'M.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', CP,
            '-Djava.io.tmpdir=' + meta,
            'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
            '-noGenerateSpecTE', '-config', cfgfile, '-fp', '1', '-seed', '1']
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError('TLC timed out on %s: %s' % (module,
                (ex.stdout or b'')[-2000:]))
        out = '\n'.join(l for l in p.stdout.split('\n') if not l.startswith(
            ('Parsing file', 'Semantic proc', 'Linting of')))
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        gen, dist = [int(x.replace(',', '')) for x in m[-1]] if m else (0, 0)
        if simulate:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            gen = dist = int(m[-1].replace(',', '')) if m else 0
        self.states += dist
        self.transitions += gen
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out, dist, gen

    def explore(self, module, cfg, env=None, name=None, simulate=None, **kw):
        """Check a design model; it must hold (else the *spec* is wrong)."""
        rc, out, dist, gen = self.tlc(module, cfg, env, simulate=simulate, **kw)
        ok = 'No error has been found' in out or (simulate and rc == 0)
        if not ok:
            raise MachineryError('design model %s: %s' % (name or module,
                '\n'.join(l for l in out.split('\n') if not l.startswith('<<'))[-3000:]))
        self.models.append(dict(model=name or module, distinct_states=dist,
            states_generated=gen, exhaustive=not simulate))
        return out

    def judge(self, module, records, verdict='Verdict', chains=16, spec=None,
            histories=False, constants='', what=None, timeout=700,
            depth=0):
        """Let TLC decide every record; collect those it does not accept.

        With histories=True, records are grouped: every record carries 'tr'
        (trace number) and the specification steps its own state machine.
        """
        spec = spec or ('HSpec' if histories else 'JSpec')
        if self.only:
            records = [r for r in records if fnmatch.fnmatch(r['key'], self.only)]
        if not records:
            return []
        records = [purge(r, histories) for r in records]
        path = os.path.join(self.scratch, 'trace-%d.ndjson' % len(os.listdir(self.scratch)))
        with open(path, 'w') as f:
            for r in records:
                f.write(json.dumps(r) + '\n')
        cfg = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n%s%s' % (
            spec, '  Initial <- Start\n  Transition <- Step\n  Agreement <- %s\n'
            % verdict if histories else '  Judgement <- %s\n' % verdict, constants)
        rc, out, dist, gen = self.tlc(module, cfg, env=dict(TRACE=path,
            CHAINS=str(min(chains, len(records)))), timeout=timeout)
        if 'No error has been found' not in out:
            if not re.search('Overflow|overflow|Attempted|TLC threw|evaluat|'
                    'applied|CHOOSE|CASE', out):
                raise MachineryError('TLC failed on %s: %s' % (module, out[-4000:]))
            # observations outside the domain of the specification
            if len(records) == 1:
                if os.environ.get('VERIF_DEBUG'):
                    print(out[:3000], file=sys.stderr)
                self.traces += 1
                self.bad.append((records[0]['key'],
                    'observation outside the domain of the specification',
                    records[0]))
                return self.bad[-1:]
            if depth > 14 or len(self.bad) > 40:
                return []
            n = len(records) // 2
            kw = dict(verdict=verdict, chains=chains, spec=spec, what=what,
                histories=histories, constants=constants, timeout=timeout,
                depth=depth + 1)
            return self.judge(module, records[:n], **kw) \
                or self.judge(module, records[n:], **kw)
        done = re.findall(r'<<"DONE", (\d+)>>', out)
        if sum(map(int, done)) != len(records):
            raise MachineryError('TLC judged %s of %d records of %s'
                % (done, len(records), module))
        bad = [(int(l), v) for l, v in
            re.findall(r'<<\s*"BAD",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out)]
        if len(bad) != len(re.findall('<<"NOT OK", 1>>', out)):
            raise MachineryError('verdicts of %s not understood' % module)
        self.traces += len(records)
        self.events += sum(len(r['steps']) for r in records) if histories \
            else len(records)
        k = what or (module + '.' + verdict)
        self.counts[k] = self.counts.get(k, 0) + len(records)
        if len(self.samples) < 12:
            for r in records[:1] + records[-1:]:
                s = json.dumps(r)
                self.samples.append(dict(spec=k, record=s if len(s) < 600
                    else s[:600] + '...'))
        res = [(records[l - 1]['key'], v, records[l - 1]) for l, v in bad]
        self.bad += res
        return res

    def fail(self, key, verdict, record=None):
        self.bad.append((key, verdict, record or {}))

    # -- end ---------------------------------------------------------------
    def known(self):
        path = os.path.join(VERIF, 'known-findings.txt')
        known = []
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'open: property=(\w+) key=(\S+) verdict=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    known.append(m.groups()[1:])
        return known

    def finish(self):
        known = self.known()
        new = []
        hit = set()
        for key, verdict, record in self.bad:
            for k, v, text in known:
                if fnmatch.fnmatchcase(key, k) and fnmatch.fnmatchcase(
                        verdict.replace(' ', '_'), v):
                    hit.add(text)
                    break
            else:
                new.append((key, verdict, record))
        for text in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        os.makedirs(EVIDENCE, exist_ok=True)
        evidence = dict(property=self.prop, tier=self.tier, seed=self.seed,
            level='model_checking', coverage=dict(states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                events_judged=self.events, records_per_spec=self.counts,
                design_models=self.models, samples=self.samples,
                notes=self.notes),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            d = os.path.join(OUT, self.prop)
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, 'replay.json')
            with open(replay, 'w') as f:
                json.dump(dict(property=self.prop, tier=self.tier,
                    seed=self.seed, how='VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY=<key> '
                        'python3 /verif/check.py %s' % (self.seed, self.tier, self.prop),
                    violations=[dict(key=k, verdict=v, record=r)
                        for k, v, r in new[:50]]), f, indent=1)
            for k, v, r in new[:10]:
                print('  %s: %s' % (k, v))
            if len(new) > 10:
                print('  ... %d in total' % len(new))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            sys.stdout.flush()
            return 1
        if self.traces == 0 and not self.only:
            print('machinery: nothing was checked')
            return 3
        print('ok property=%s traces=%d events=%d states=%d wall=%.1fs' % (
            self.prop, self.traces, self.events, self.states,
            time.time() - self.t0))
        return 0
