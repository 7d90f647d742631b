from common import *
from models import *

def run(c):
    rng = c.rng
    recs = []
    def add(key, m, plan):
        recs.append(run_history(key, m, plan, len(recs)))
    # every history of the design model, on real electrons
    for start in (1, 2):
        for i, h in enumerate(design(c, c.q(2, 3), start)):
            ops = [s['op'] for s in h]
            if 'super' in ops and 'unit' not in ops:
                add('design%d-%d' % (start, i), start_model(start), h)
    for i in range(c.q(60, 400)):
        M = lambda m: dict(op='super', M=matrix(rng, max(1, 18 // m.size)))
        S = lambda m: dict(op='sparse', M=matrix(rng, max(1, 18 // m.size)))
        plan = [M] + [dict(op='std')] * rng.randint(0, 1) + \
            ([M] if rng.random() < 0.4 else [])
        add('el-%d' % i, el_model(rng), plan)
        add('ph-%d' % i, ph_model(rng), plan)
        add('elel-%d' % i, elel_model(rng), plan)
        if i % 2:
            plan = [dict(op='std')] + [S]
            add('el-sparse-%d' % i, el_model(rng), plan)
            add('ph-sparse-%d' % i, ph_model(rng), plan)
    c.judge('ModelTrace', recs, verdict='Agree', histories=True)
