from common import *
import math
import numpy as np
import elphmod
import elphmod.bravais as b

def run(c):
    rng = c.rng
    c.explore('InterpolationDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS S = %d\nP = %d\n'
        'INVARIANTS Unity Position Adjacent Continuous Exact StackInvariant StackWide\n' % (c.q(4, 8), c.q(5, 8)))
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(dict(key='%s-%s' % (kind, key), kind=kind, exc='', s=1, period=0), **kw)
        ok, v = call(work)
        if ok == 'ok':
            r.update(v)
        else:
            r['exc'] = v
        recs.append(r)
    def mesh(angle):
        N = rng.randint(1, 5)
        return N, 1 if angle == 0 else rng.choice((N, rng.randint(1, 5)))
    def place(A, angle, extra):
        """Put lattice axes somewhere into an array with further axes."""
        nl = 1 if angle == 0 else 2
        nd = nl + extra
        axes = rng.sample(range(nd), nl)
        rest = [n for n in range(nd) if n not in axes]
        return A.transpose(np.argsort(axes + rest)), tuple(axes)
    def comps(angle, N, M, span=40):
        extra = rng.choice((0, 0, 1, 2))
        shape = [rng.randint(1, 2) for _ in range(extra)]
        lat = (N,) if angle == 0 else (N, M)
        A = np.array([rng.randint(-span, span) for _ in range(int(np.prod(lat + tuple(shape))))],
            dtype=float).reshape((*lat, *shape))
        B, axes = place(A, angle, extra)
        return A, B, axes
    def flat(A, nl):
        """Components (trailing axes) of an array with nl lattice axes."""
        return A.reshape((int(np.prod(A.shape[:nl])), -1)).T
    def spoken(axes, angle):
        """axes argument as users may write it"""
        if angle == 0:
            return axes[0] if rng.random() < 0.6 else axes
        return axes
    def points(N, M, s, n=8):
        pts = []
        for _ in range(n):
            f = rng.choice((1, 1, s))
            pts.append((f * rng.randint(-2 * N * s // f, 3 * N * s // f),
                f * rng.randint(-2 * M * s // f, 3 * M * s // f)))
        return pts
    for i in range(c.q(120, 800)):
        angle = rng.choice((0, 60, 90, 120))
        N, M = mesh(angle)
        s = rng.choice((1, 2, 3, 4, 8))
        A, B, axes = comps(angle, N, M)
        period = rng.choice((0, 0, 10, 7))
        nl = len(axes)
        cplx = not period and rng.random() < 0.3
        if cplx:
            A2, B2 = -2 * A + 1, -2 * B + 1
        pts = points(N, M, s)
        asint = rng.random() < 0.2 and not cplx
        def work():
            D = B + 1j * B2 if cplx else B.astype(int) if asint else B
            dig = digest(D)
            kw = dict(axes=spoken(axes, angle)) if axes != (0, 1) or rng.random() < 0.3 else {}
            if angle:
                kw['angle'] = angle
            if period:
                kw['period'] = period
            f = b.linear_interpolation(D, **kw)
            got = []
            if rng.random() < 0.5:
                for x, y in pts:
                    p = [x / s] if angle == 0 else [x / s, y / s]
                    if rng.random() < 0.3 and x % s == y % s == 0:
                        p = [int(q) for q in p]
                    got.append(f(*p))
            else:
                P = np.array(pts) / s
                got = f(P[:, 0]) if angle == 0 else f(P[:, 0], P[:, 1])
            if digest(D) != dig:
                raise RuntimeError('argument modified')
            got = np.array(got).reshape((len(pts), -1))
            def pack(A, got):
                return [dict(data=ints(d), pts=[[x, y, ints(g, s * s)] for (x, y), g in zip(pts, gs)])
                    for d, gs in zip(flat(A, nl), got.T)]
            return dict(comps=pack(A, got.real) + (pack(A2, got.imag) if cplx else []))
        rec('interpolation', i, work, angle=angle, N=N, M=M, s=s, period=period, comps=[])
    for i in range(c.q(40, 200)):
        angle = rng.choice((0, 60, 90, 120))
        N, M = mesh(angle)
        s = rng.choice((1, 2, 4))
        P = 12
        R, _, _ = comps(angle, N, M)
        R = abs(R.reshape((*R.shape[:1 if angle == 0 else 2], -1))[..., 0])
        if rng.random() < 0.5:
            R += 1
        ph = np.array([rng.randint(0, P - 1) if r else 0 for r in R.ravel()]).reshape(R.shape)
        pts = points(N, M, s)
        def work():
            f = b.linear_interpolation(R * np.exp(2j * np.pi * ph / P), angle=angle or 60,
                axes=0 if angle == 0 else (0, 1), polar=True)
            out = []
            for x, y in pts:
                z = complex(f(x / s) if angle == 0 else f(x / s, y / s))
                z2 = z / abs(z) if abs(z) > 1e-9 else 1.0
                out.append([x, y, ints(abs(z), s * s), ints(np.angle(z2), P * s * s / (2 * np.pi))])
            return dict(comps=[dict(data=ints(R.ravel()), phase=ints(ph.ravel()), pts=out)])
        rec('polar', i, work, angle=angle, N=N, M=M, s=s, period=P, comps=[])
    for i in range(c.q(80, 500)):
        angle = rng.choice((0, 60, 90, 120))
        N, M = mesh(angle)
        periodic = rng.random() < 0.7
        N1, M1 = rng.randint(1 if periodic else 2, 6), rng.randint(1 if periodic else 2, 6)
        if angle == 0:
            M1 = 1
        if not periodic:
            N = max(N, 2)
            M = max(M, 2) if angle else 1
        s = math.lcm(N1, M1) if periodic else math.lcm(N1 - 1, M1 - 1 if angle else 1)
        A, B, axes = comps(angle, N, M)
        period = rng.choice((0, 0, 10, 7))
        asint = rng.random() < 0.3
        nl = len(axes)
        def work():
            D = B.astype(int) if asint else B
            dig = digest(D)
            kw = dict(axes=spoken(axes, angle))
            if angle:
                kw['angle'] = angle
            if period:
                kw['period'] = period
            shape = (N1, M1) if angle else N1
            E = b.resize(D, shape, periodic=periodic, **kw)
            if digest(D) != dig:
                raise RuntimeError('argument modified')
            E = E.transpose(axes + tuple(n for n in range(E.ndim) if n not in axes))
            return dict(comps=[dict(data=ints(d), got=ints(e, s * s))
                for d, e in zip(flat(A, nl), flat(E, nl))])
        rec('resize', i, work, angle=angle, N=N, M=M, N1=N1, M1=M1, s=s, period=period,
            periodic=periodic, comps=[])
    for i in range(c.q(80, 500)):
        n = rng.randint(1, 5)
        shape = rng.choice(((), (), (3,), (2, 2)))
        P = rng.choice((4, 7, 10))
        X = np.array([rng.randint(-15, 30) for _ in range(n * int(np.prod(shape)))]).reshape((n, *shape))
        asfloat = rng.random() < 0.7
        def work():
            D = X.astype(float) if asfloat else X
            if P == 7 and rng.random() < 0.6: # default period of 2 pi
                got = b.stack(*(D * (2 * np.pi / P))) * P / (2 * np.pi)
            else:
                got = b.stack(*D, period=P)
            got = np.array(got)
            if got.shape != X.shape:
                raise RuntimeError('wrong shape')
            return dict(cols=[[x, y] for x, y in zip(ints(X.reshape((n, -1)).T), ints(got.reshape((n, -1)).T))])
        rec('stack', i, work, period=P, cols=[])
    c.judge('InterpolationTrace', recs)
