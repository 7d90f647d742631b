from common import *
from planar import *
import elphmod
import elphmod.bravais as b

def run(c):
    rng = c.rng
    c.explore('SymmetryDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT NMAX = %d\n'
        'INVARIANTS GroupOrder Closed Linear Isometric Represented OrbitsPartition Invariant\n'
        % c.q(8, 14))
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(key='%s-%s' % (kind, key), kind=kind, exc='', got=[], **kw)
        ok, v = call(work)
        if ok == 'ok':
            r.update(v)
        else:
            r['exc'] = v
        recs.append(r)
    pts = lambda s: sorted([int(x), int(y)] for x, y in s)
    for angle in 60, 90, 120:
        for nk in range(1, c.q(13, 19)):
            rec('irreducibles', '%d-%d' % (angle, nk), lambda: dict(
                got=pts(b.irreducibles(nk, angle=angle))), angle=angle, nk=nk)
        for nk in range(1, c.q(8, 14)):
            for k in np.ndindex(nk, nk):
                if nk > 4 and rng.random() < 0.7:
                    continue
                rec('images', '%d-%d-%d-%d' % (angle, nk, *k), lambda: dict(
                    got=pts(b.images(*k, nk=nk, angle=angle))), angle=angle, nk=nk, k=list(k))
    for i in range(c.q(40, 300)):
        angle, nk = rng.choice((60, 90, 120)), rng.randint(1, 7)
        d = random_data(rng, angle, nk)
        if rng.random() < 0.5:
            d = {k: x for k, x in d.items() if rng.random() < 0.6}
        data = np.full((nk, nk), np.nan)
        for k, x in d.items():
            data[k] = x
        unity, eps = rng.random() < 0.7, rng.choice((0, 0, 1, 3))
        def work():
            got = []
            for (refl, deg), image in b.symmetries(data.copy(), epsilon=eps + 0.5 * (eps > 0),
                    unity=unity, angle=angle):
                got.append([bool(refl), ints(deg), ints(image.reshape((-1, 2)))])
            return dict(got=got)
        rec('symmetries', i, work, angle=angle, nk=nk, unity=unity, eps=eps,
            data=[[*k, x] for k, x in d.items()])
    for i in range(c.q(60, 400)):
        angle, nk = rng.choice((60, 90, 120)), rng.randint(1, 8)
        d = random_data(rng, angle, nk, span=rng.choice((3, 50)))
        p = rng.random()
        known = [k for k in d if rng.random() < p]
        lab = classes(angle, nk)
        if rng.random() < 0.7: # at least one point per orbit
            orb = {}
            for k, l in lab.items():
                orb.setdefault(l, []).append(k)
            known = sorted(set(known) | {rng.choice(o) for o in orb.values()})
        data = np.full((nk, nk), np.nan)
        for k in known:
            data[k] = d[k]
        def work():
            x = data.copy()
            b.complete(x, angle=angle)
            return dict(got=[[*map(int, k), ints(x[k])] for k in zip(*np.where(~np.isnan(x)))])
        rec('complete', i, work, angle=angle, nk=nk, full=[[*k, x] for k, x in d.items()],
            known=[list(k) for k in known])
    for i in range(c.q(12, 80)):
        nq, nk = rng.choice(((1, 1), (1, 3), (2, 4), (3, 3), (2, 2), (4, 4), (3, 6), (4, 2), (5, 5), (2, 6)))
        f = np.zeros((nq, nq, nk, nk))
        lab = {}
        fs = list(ops(60))
        for k in np.ndindex(*f.shape):
            if k not in lab:
                x = rng.randint(-99, 99)
                for g in fs:
                    lab[tuple(x_ % nq for x_ in g(k[:2])) + tuple(x_ % nk for x_ in g(k[2:]))] = x
            f[k] = lab[k]
        wedge = np.array([f[q] for q in sorted(b.irreducibles(nq))])
        dtype = rng.choice((float, complex, int))
        rec('complete_k', i, lambda: dict(got=ints(b.complete_k(wedge.astype(dtype), nq).real.ravel())),
            nq=nq, nk=nk, f=ints(f.ravel()))
    full_mesh(rng, rec, c.q(60, 400))
    c.judge('SymmetryTrace', recs)
