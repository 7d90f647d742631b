from common import *
from models import *

def run(c):
    rng = c.rng
    recs = []
    def add(key, m, plan):
        recs.append(run_history(key, m, plan, len(recs)))
    for start in (1, 2):
        for i, h in enumerate(design(c, c.q(3, 4), start)):
            ops = [s['op'] for s in h]
            if ('order' in ops or 'shift' in ops) and not 'unit' in ops \
                    and (c.thorough or rng.random() < 0.5):
                add('design%d-%d' % (start, i), start_model(start), h)
    O = lambda m: dict(op='order', order=perm(rng, units(m)))
    S = lambda m: shift(rng, units(m))
    for i in range(c.q(70, 500)):
        def plan():
            p = [rng.choice((O, S)) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.2:
                p.insert(rng.randint(0, 1), lambda m: dict(op='super',
                    M=matrix(rng, 2)))
            return p
        def there_and_back():
            done = []
            def go(m):
                s = rng.choice((O, S))(m)
                done.append(s)
                return s
            def back(m):
                s = done.pop()
                if s['op'] == 'shift':
                    return dict(s, S=[-x for x in s['S']])
                return dict(op='order', order=[s['order'].index(j)
                    for j in range(len(s['order']))])
            n = rng.randint(1, 3)
            return [go] * n + [back] * n
        for name, m in (('el', el_model(rng, size=rng.randint(1, 4))),
                ('ph', ph_model(rng, nat=rng.randint(1, 4)))):
            add('%s-%d' % (name, i), m, plan() if i % 3 else there_and_back())
    c.judge('ModelTrace', recs, verdict='Agree', histories=True)
