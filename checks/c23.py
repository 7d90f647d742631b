import io, json, sys
from common import *
import elphmod
misc = elphmod.misc

class Stage:
    """Real bars with everything they print."""
    def __init__(self, rank=0):
        self.old = misc.StatusBar.in_progress, misc.verbosity
        misc.StatusBar.in_progress = rank != 0
        self.bars, self.args = [], []
        self.rank = rank

    def close(self):
        misc.StatusBar.in_progress, misc.verbosity = self.old

    def step(self, op):
        s = dict(op='open' if op[0] == 0 else 'tick', exc='', bar=op[0], count=op[1], width=op[2], quiet=len(op) > 3 and op[3] < 3)
        text = io.StringIO()
        sys.stdout, old = text, sys.stdout
        title = 'bar %d' % len(self.bars)
        try:
            if op[0] == 0:
                misc.verbosity = op[3] if len(op) > 3 else 3
                if op[2] == 60:
                    b = misc.StatusBar(op[1], title=title)
                else:
                    b = misc.StatusBar(op[1], op[2], title) if op[1] % 2 else misc.StatusBar(count=op[1], width=op[2], title=title)
                self.bars.append(b)
            else:
                misc.verbosity = 3
                self.bars[op[0] - 1].update()
        except Exception as e:
            s['exc'] = repr(e)[:100]
        finally:
            sys.stdout = old
        t = text.getvalue()
        o = dict(title=False, named=False, columns=0, marks=0, newline=False, rest=0)
        if op[0] == 0:
            if t:
                o['title'] = True
                o['named'] = ' %s ' % title in t and t.count('\n') == 1 and t.endswith('\n')
                # titles longer than the bar are not shortened
                o['columns'] = op[2] if len(title) + 2 > op[2] else len(t) - 1
        else:
            o['newline'] = t.endswith('\n')
            u = t[:-1] if o['newline'] else t
            o['marks'] = u.count('=')
            o['rest'] = len(u) - o['marks']
        s['out'] = o
        d = misc.StatusBar.in_progress
        s['display'] = -1 if d is True else 0 if d is False else self.bars.index(d) + 1 if d in self.bars else -2
        return s

def run(c):
    rng = c.rng
    out = c.explore('StatusBarDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n'
        'Counts = {0, 1, 2, 3}\nWidths = {2, 3}\nMost = 3\n'
        'INVARIANTS OneAtATime Bounded Monotone Complete SilentBars Proportional Emit\n' % c.q(5, 6))
    hs = [json.loads(h.replace('\\"', '"')) for h in re.findall(r'<<"HIST", "(.*)">>', out)]
    c.notes.append('%d histories admitted by StatusBarDesign' % len(hs))
    hs = rng.sample(hs, min(len(hs), c.q(1500, 15000)))
    for _ in range(c.q(300, 3000)): # longer ones, with nested loops
        h, n, left = [], 0, []
        for _ in range(rng.randint(5, 80)):
            if not n or rng.random() < 0.15:
                n += 1
                h.append([0, rng.choice((0, 1, 2, 3, 7, 10, 59, 60, 61, 100)), rng.choice((60, 60, 1, 5, 10, 13)), rng.choice((3, 3, 3, 3, 2, 0))])
                left.append(n)
            else: # mostly the most recent loop, sometimes others
                h.append([n if rng.random() < 0.6 else rng.randint(1, n), 0, 0])
        hs.append(h)
    for _ in range(c.q(60, 600)): # complete loops
        n, w = rng.randint(1, 200), rng.choice((60, 60, 7, 100))
        h = [[0, n, w]]
        for i in range(n):
            h.append([1, 0, 0])
            if rng.random() < 0.02:
                m = rng.randint(1, 5)
                h.append([0, m, w])
                h += [[h.count(h[-1]) and sum(s[0] == 0 for s in h), 0, 0]] * m
        h += [[1, 0, 0]] * rng.randint(0, 2) + [[0, 3, w]] + [[sum(s[0] == 0 for s in h) + 1, 0, 0]] * 3
        hs.append(h)
    recs = []
    for i, h in enumerate(hs):
        rank = 0 if rng.random() < 0.9 else 1
        stage = Stage(rank)
        steps = [stage.step(op) for op in h]
        stage.close()
        recs.append(dict(key='bars-%d' % i, start=dict(op='start', exc='', rank=rank), steps=steps))
    c.judge('StatusBarTrace', recs, verdict='Agree', histories=True)
