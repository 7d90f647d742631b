from common import *
from models import *

def run(c):
    rng = c.rng
    recs = []
    def add(key, m, plan):
        recs.append(run_history(key, m, plan, len(recs)))
    for start in (1, 2):
        for i, h in enumerate(design(c, c.q(3, 4), start)):
            ops = [s['op'] for s in h]
            if 'unit' in ops and ops[-1] != 'super':
                add('design%d-%d' % (start, i), start_model(start), h)
    U = dict(op='unit')
    for i in range(c.q(80, 500)):
        def M(m):
            return dict(op='super', M=matrix(rng, max(1, 18 // m.size)))
        def plan():
            mid = rng.choice(([], [], [dict(op='std')], [dict(op='sym', alias=True)]))
            return [M] + mid + [U] + rng.choice(([], [],
                [dict(op='std')], [M, U], [lambda m: shift(rng, units(m))]))
        add('el-%d' % i, el_model(rng), plan())
        add('ph-%d' % i, ph_model(rng), plan())
    c.judge('ModelTrace', recs, verdict='Agree', histories=True)
