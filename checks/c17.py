import copy, json, re
from common import *
from couplings import *

def history(c, rng, h, shared):
    """Real counterpart of a history of the design model."""
    m = elph_model(rng, nat=rng.choice((1, 1, 2)), size=rng.randint(1, 2),
        shared=shared)
    m.ph.a = np.diag([float(rng.randint(2, 5)) for _ in range(3)])
    if m.divide_mass: # keeps moduli equal without masses, too
        m.ph.M[:] = rng.choice((1.0, 4.0, 16.0))
    equal_moduli(rng, m)
    Q = {1: [rng.randint(-5, 5) for _ in range(3)],
         2: [rng.randint(-5, 5) for _ in range(3)]}
    if rng.random() < 0.7: # points that differ in one component only
        Q[2] = list(Q[1])
        Q[2][rng.randrange(3)] += rng.choice((-2, -1, 1, 2))
    plan = []
    for s in h:
        op = s['op']
        if op == 'eval':
            # the band basis is built on top of the same cached data
            for _ in range(rng.randint(1, 2)):
                plan.append(dict(op=rng.choice(('eval', 'eval', 'eval', 'fresh')),
                    q4=Q[s['q']], k4=[rng.randint(-5, 5) for _ in range(3)],
                    elbnd=rng.random() < 0.5, phbnd=rng.random() < 0.5))
        elif op in ('std', 'clear', 'scribble', 'sym'):
            plan.append(dict(op=op))
        elif op == 'asr':
            plan.append(dict(op='asr') if not plan or all(
                isinstance(p, dict) and p['op'] in ('eval', 'fresh', 'scribble')
                for p in plan) else dict(op='std'))
        elif op in ('rebuild', 'rebuildws'):
            nq = [rng.choice((1, 2, 4)), rng.choice((1, 2)), 1]
            nk = [rng.choice((1, 2, 4)), rng.choice((1, 2)), 1]
            def go(m, op=op, nq=nq, nk=nk, seed=rng.randrange(10**6)):
                ws = op == 'rebuildws' or getattr(m, 'dk', None) is None
                return dict(op='rebuild', nq=nq, nk=nk, seed=seed, unit=64 * 64,
                    r=[[0.0, 0.0, 0.0]] * m.el.size if ws else None)
            plan.append(go)
        elif op == 'super':
            plan.append(dict(op='super', M=rng.choice((
                [[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, -2, 0], [0, 0, 1]],
                [[-1, 0, 0], [0, 1, 0], [0, 0, 1]]))))
    return m, plan

def equal_moduli(rng, m):
    """Two or four elements of equal modulus in every group (see SumRule)."""
    g = m.data.reshape((len(m.Rg) * m.ph.nat, -1))
    g[...] = 0.0
    for j in range(g.shape[1]):
        if rng.random() < 0.5:
            n = rng.choice([n for n in (1, 2, 4) if n <= len(g)])
            v = 16 * rng.randint(1, 20)
            for i in rng.sample(range(len(g)), n):
                g[i, j] = v * rng.choice((1, -1, 1j, -1j))
    if not g.any():
        g[0, 0] = 16

def run(c):
    rng = c.rng
    resets = '{"std", "sym", "asr", "rebuild", "rebuildws", "clear", "super"}'
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = %d\n'
        ' Resets = %s\nINVARIANTS Fresh TypeOK %s')
    out = c.explore('CouplingCache', cfg % (c.q(4, 5), resets, 'Emit'))
    hs = [json.loads(h.replace('\\"', '"')) for h in
        re.findall(r'<<"HIST", "(.*)">>', out)]
    c.notes.append('%d histories admitted by CouplingCache' % len(hs))
    # eval x, change, eval x: always; others: a random selection
    core = [h for h in hs if len(h) >= 3 and h[-1] == h[-3]
        and h[-2]['op'] not in ('eval',)]
    rest = [h for h in hs if h not in core]
    sel = rng.sample(core, min(len(core), c.q(200, 1200))) + \
        rng.sample(rest, min(len(rest), c.q(150, 1500)))
    recs = []
    for i, h in enumerate(sel):
        m, plan = history(c, rng, h, shared=i % 4 == 0)
        recs.append(crun('cache-%d-%s' % (i, '.'.join(s['op'] + str(s['q'] or '')
            for s in h)), m, plan, i))
    c.judge('CouplingTrace', recs, verdict='Agree', histories=True)
