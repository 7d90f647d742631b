from common import *
from polynomial import *
import numpy as np
import elphmod
D = elphmod.diagrams

def cz(a):
    """Gaussian integers as nested lists of pairs."""
    return ints(np.asarray(a).astype(complex))

class Case:
    """Mesh, energies (units of kT), distribution, transfer momenta."""
    def __init__(self, rng, nb=None, nq=3, square=False, degree=3, span=3, kTs=(1, 2, 0.5, 4, 0.25), most=8):
        if square:
            n = rng.choice((1, 2, 3, 4))
            self.nk, self.dim = [n, n, 1], 2
        else:
            while True:
                self.nk = [rng.choice((1, 2, 3, 4)) for _ in range(3)]
                self.dim = rng.randint(1, 3)
                self.nk[self.dim:] = [1] * (3 - self.dim)
                if np.prod(self.nk) <= most:
                    break
        self.N = int(np.prod(self.nk))
        self.nb = nb or rng.randint(1, 3)
        self.kT = rng.choice(kTs)
        self.c = distribution(rng, degree)
        self.f = Polynomial(self.c)
        self.shape = tuple(self.nk[:self.dim])
        self.x = [[rng.randint(-span, span) for _ in range(self.nb)] for _ in range(self.N)]
        self.e = np.array(self.x, float).reshape((*self.shape, self.nb)) * self.kT
        self.m = []
        for i in range(rng.randint(1, nq)):
            m = [rng.randrange(n) for n in self.nk]
            self.m.append(m if rng.random() < 0.8 else [0, 0, 0])
        self.q = [self.point(rng, m) for m in self.m]
        # momenta differing from mesh points by reciprocal lattice vectors
        self.gap = rng.choice((0, 0, 0, 1, 2))
        self.kw = dict(kT=self.kT, occupations=self.f)
        self.ekw = dict(self.kw, eps=(self.gap + 0.5) * self.kT) if self.gap else dict(self.kw)

    def point(self, rng, m):
        return tuple(2 * np.pi * (a / n + rng.choice((0, 0, 0, -1, 1, 2)))
            for a, n in zip(m[:self.dim], self.nk))

    def base(self):
        return dict(nk=self.nk, x=self.x, q=self.m, f=self.c, nb=self.nb, gap=self.gap)

    def mesh(self, rng, lead, trail, **kw):
        """Array on the mesh and its form for the specification (points flat)."""
        a = gauss(rng, (*lead, self.N, *trail), **kw)
        return a.reshape((*lead, *self.shape, *trail)), a

def run(c):
    rng = c.rng
    c.explore('DiagramsDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS CMAX = 1\nXMAX = %d\n'
        'INVARIANTS Quotient Symmetric Slope ThirdOrder Curvature Mesh\n' % c.q(1, 2))
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(key='%s-%s' % (kind, key), kind=kind, exc='', got=[], **kw)
        ok, v = call(work)
        r.update(v if ok == 'ok' else dict(exc=v))
        recs.append(r)

    for i in range(c.q(120, 1800)):
        s = Case(rng, nb=1, square=True)
        def work():
            chi = D.susceptibility(s.e[..., 0], **s.kw)
            return dict(got=[ints(chi(*q), s.N * s.kT / 2) for q in s.q])
        rec('susceptibility', i, work, **s.base())

    for i in range(c.q(120, 1800)):
        s = Case(rng)
        no = rng.randint(1, 3)
        U, Uf = s.mesh(rng, (), (no, s.nb), span=2)
        sub = np.array([rng.random() < 0.5 for _ in range(s.N * s.nb)]).reshape((s.N, s.nb)) if rng.random() < 0.6 else None
        def work():
            kw = dict(s.ekw)
            if sub is not None:
                kw['subspace'] = sub.reshape(s.e.shape)
            Pi = D.polarization(s.e, U, **kw)
            got = []
            for q in s.q:
                P = Pi(*q)
                if P.shape != (no, no):
                    raise RuntimeError('wrong shape')
                got.append(ints(P.astype(complex), s.N * s.kT / 2))
            return dict(got=got)
        rec('polarization', i, work, U=cz(Uf), no=no, sub=[] if sub is None else sub.tolist(), **s.base())

    for i in range(c.q(300, 4500)):
        dynamic = rng.random() < 0.4
        window = rng.choice(('none', 'none', 'window', 'derivative'))
        s = Case(rng, nb=rng.randint(1, 2), kTs=(1,) if dynamic or window != 'none' else (1, 2, 0.5), span=2)
        nm = rng.randint(1, 2)
        matrix = rng.random() < 0.6
        symm, diag = rng.random() < 0.6, rng.random() < 0.3
        other = rng.random() < 0.6
        real = rng.random() < 0.3
        fluct = rng.random() < 0.5
        g, gf = s.mesh(rng, (len(s.q), nm), (s.nb, s.nb), real=real)
        G, Gf = s.mesh(rng, (len(s.q), nm), (s.nb, s.nb)) if matrix and other else (None, gf)
        lcm, omega, tries = 1, [[0, 0]], 0
        if dynamic:
            while True:
                omega = [[rng.randint(-3, 3), rng.choice((1, 1, -1, 2))] for _ in range(rng.choice((1, 1, 2)))]
                tries += 1
                if tries > 200:
                    omega = [[0, 1]]
                    s.x = [[rng.randint(-1, 1) for _ in r] for r in s.x]
                    s.e = np.array(s.x, float).reshape(s.e.shape) * s.kT
                lcm = 1
                for a in {x - y for r in s.x for x in r for t in s.x for y in t}:
                    for w in omega:
                        lcm = math.lcm(lcm, (a + w[0]) ** 2 + w[1] ** 2)
                if lcm < (1000 if window != 'none' else 10000):
                    break
        win = dict(kind=window, h=distribution(rng, 2, 2), w=rng.randint(0, 2), s=[1, rng.choice((1, 2))])
        vec = dynamic and (len(omega) > 1 or rng.random() < 0.5)
        bare = not matrix and rng.random() < 0.15
        if bare:
            nm, gf = 1, np.ones((len(s.q), 1, s.N, s.nb, s.nb))
        def work():
            kw = dict(s.ekw)
            if dynamic:
                w = [a * s.kT + 1j * b * s.kT for a, b in omega]
                kw['omega'] = np.array(w) if vec else w[0]
            if window != 'none':
                kw.update(Delta=float(win['w']), Delta_occupations=Polynomial(win['h']),
                    Delta_kT=win['s'][0] / win['s'][1])
                if window == 'derivative':
                    kw['Delta_diff'] = True
            if matrix:
                kw['g'] = g
                if G is not None:
                    kw['G'] = G
                kw.update(symmetrize=symm, diagonal=diag)
            elif not bare:
                kw['g2'] = g
            ref = digest((s.e, g, G))
            out = D.phonon_self_energy(s.q, s.e, fluctuations=fluct, **kw)
            if digest((s.e, g, G)) != ref:
                raise RuntimeError('argument modified')
            Pi, Pik = out if fluct else (out, None)
            ph = (nm, nm) if matrix else (nm,)
            nq, om = len(s.q), ((len(omega),) if vec else ())
            if Pi.shape != (nq, *ph, *om):
                raise RuntimeError('wrong shape')
            two = 2 if symmetrized else 1
            scale = s.N * s.kT * lcm / 2 * two
            def full(A, k):
                A = A.reshape((nq, *ph, len(omega), *k)).astype(complex)
                if not matrix:
                    B = np.zeros((nq, nm, nm, len(omega), *k), dtype=complex)
                    for nu in range(nm):
                        B[:, nu, nu] = A[:, nu]
                    A = B
                return A
            z = dict(got=ints(full(Pi, ()), scale, tol=1e-4))
            if fluct:
                if Pik.shape != (nq, *ph, *om, *s.shape, s.nb, s.nb):
                    raise RuntimeError('wrong shape')
                z['integrand'] = ints(full(Pik, (s.N, s.nb, s.nb)), s.kT * lcm / 2 * two, tol=1e-4)
            return z
        # symmetrization: all values are doubled
        symmetrized = matrix and G is not None and symm
        r = s.base()
        r['nm'] = nm
        rec('selfenergy', i, work, g=cz(gf), G=cz(Gf if not bare else gf), omega=omega, lcm=lcm, window=win, matrix=matrix,
            symmetrized=symmetrized, diagonal=diag, integrand=[], **r)
    for i in range(c.q(80, 900)):
        s = Case(rng, nb=rng.randint(1, 2))
        nm = rng.randint(1, 2)
        g, gf = s.mesh(rng, (len(s.q), nm), (s.nb, s.nb))
        G, Gf = s.mesh(rng, (len(s.q), nm), (s.nb, s.nb)) if rng.random() < 0.5 else (None, gf)
        pair = [rng.randrange(s.nb), rng.randrange(s.nb)]
        pref = 2 / (s.N * s.kT)
        def bubble(m):
            S = 0
            for k in np.ndindex(*s.nk):
                k2 = tuple((a + b) % n for a, b, n in zip(k, m, s.nk))
                a = s.x[np.ravel_multi_index(k2, s.nk)][pair[0]]
                b = s.x[np.ravel_multi_index(k, s.nk)][pair[1]]
                S += int(-s.f.delta(b)) if abs(a - b) <= s.gap else int((s.f(b) - s.f(a)) / (b - a))
            return S
        S = [bubble(m) for m in s.m]
        U = rng.choice((1, 2, -1, 3, -2))
        while any(abs(1 - pref * x * U) < 1e-6 for x in S):
            U += 1
        def work():
            kw = dict(s.ekw, g=g)
            if G is not None:
                kw['G'] = G
            V = np.zeros((s.nb, s.nb))
            V[tuple(pair)] = U
            a = D.phonon_self_energy(s.q, s.e, **kw)
            b = D.phonon_self_energy(s.q, s.e, U=V, **kw)
            return dict(got=[ints((y - x).astype(complex) / pref ** 2 * (1 - pref * t * U), tol=1e-5)
                for x, y, t in zip(a, b, S)])
        rec('contact', i, work, g=cz(gf), G=cz(Gf), nm=nm, pair=[p + 1 for p in pair], contact=U, S=S, **s.base())

    for i in range(c.q(180, 2700)):
        kind = ('pig', 'orbital', 'band')[i % 3]
        s = Case(rng, nb=rng.randint(1, 2), kTs=(1, 2, 4), most=4, degree=2, span=2, nq=2)
        s.e = s.e
        no, nm = rng.randint(1, 2), rng.randint(1, 2)
        U, Uf = s.mesh(rng, (), (no, s.nb), span=1)
        dd = rng.random() < 0.5
        n = s.nb if kind == 'band' else no
        g, gf = s.mesh(rng, (len(s.q), nm), (n, n), span=2)
        W = gauss(rng, (len(s.q), *([no] * (2 if dd else 4))), span=2, density=0.7)
        sub = rng.randint(1, s.nb)
        scale = s.N * s.kT / 2
        if scale != int(scale):
            s.kT *= 2
            s.e = s.e * 2
            s.kw['kT'] *= 2
            s.ekw['kT'] *= 2
            if 'eps' in s.ekw:
                s.ekw['eps'] *= 2
            scale *= 2
        def work():
            if kind == 'pig':
                P = D.Pi_g(s.q, s.e, g, U, dd=dd, status=False, **s.ekw)
                if P.shape != (len(s.q), nm, *((no,) if dd else (no, no))):
                    raise RuntimeError('wrong shape')
                return dict(got=ints(P, scale))
            ref = digest((g, W, U))
            if kind == 'orbital':
                out = D.renormalize_coupling_orbital(s.q, s.e, g, W, U, status=False, **s.ekw)
            else:
                kw = dict(s.ekw)
                if sub < s.nb or rng.random() < 0.5:
                    kw['nbnd_sub'] = sub
                out = D.renormalize_coupling_band(s.q, s.e, g, W, U, status=False, **kw)
            if digest((g, W, U)) != ref:
                raise RuntimeError('argument modified')
            if out.shape != g.shape:
                raise RuntimeError('wrong shape')
            return dict(got=ints(out.reshape((len(s.q), nm, s.N, n, n)), scale))
        rec(kind, i, work, g=cz(gf), U=cz(Uf), W=cz(W), nm=nm, no=no, dd=dd, scale=int(scale), sub=sub, **s.base())

    for i in range(c.q(80, 1200)):
        s = Case(rng)
        nm = rng.randint(1, 2)
        bare = rng.random() < 0.2
        g, gf = s.mesh(rng, (len(s.q), nm), (s.nb, s.nb), real=rng.random() < 0.5)
        if bare:
            nm, gf = 1, np.ones((len(s.q), 1, s.N, s.nb, s.nb))
        def work():
            a, b = D.double_fermi_surface_average(s.q, s.e, None if bare else g, **s.kw)
            return dict(got=ints(a.astype(complex), s.kT ** 2), deno=ints(b, s.kT ** 2))
        rec('average', i, work, g=cz(gf), nm=nm, deno=[], **s.base())

    for i in range(c.q(80, 1200)):
        s = Case(rng)
        nm, no = rng.randint(1, 2), rng.randint(1, 2)
        U, Uf = s.mesh(rng, (), (no, s.nb), span=2) if rng.random() < 0.6 else (None, None)
        n = s.nb if U is None else no
        g, gf = s.mesh(rng, (nm,), (n, n))
        def work():
            return dict(got=ints(D.first_order(s.e, g, U=U, **s.kw).astype(complex), s.N / 2))
        rec('first', i, work, g=cz(gf), U=[] if U is None else cz(Uf), nm=nm, no=no, **s.base())

    for i in range(c.q(40, 400)):
        s = Case(rng)
        f = Polynomial(s.c, s=distribution(rng))
        def work():
            return dict(got=[ints(D.grand_potential(s.e, kT=s.kT, occupations=f), s.N / 2 / s.kT)])
        rec('grand', i, work, entropy=f.s, **s.base())

    for i in range(c.q(80, 1200)):
        s = Case(rng)
        nm = rng.randint(1, 3)
        g, gf = s.mesh(rng, (nm,), (s.nb, s.nb))
        dos = int(s.f.delta(np.array(s.x)).sum())
        if not dos:
            continue
        def work():
            return dict(got=ints(D.phonon_self_energy_fermi_shift(s.e, g, **s.kw).astype(complex), s.N * s.kT / 2 * dos))
        rec('shift', i, work, g=cz(gf), nm=nm, dos=dos, **s.base())

    for i in range(c.q(120, 1800)):
        s = Case(rng, nb=rng.randint(1, 2), nq=1)
        Qm = [rng.randrange(n) for n in s.nk] if rng.random() < 0.7 else s.m[0]
        gs = [s.mesh(rng, (), (s.nb, s.nb), span=2) for _ in range(3)]
        fluct = rng.random() < 0.5
        def work():
            ref = digest([a for a, _ in gs])
            out = D.triangle(s.q[0], s.point(rng, Qm), s.e, *[a for a, _ in gs], fluctuations=fluct, **s.kw)
            if digest([a for a, _ in gs]) != ref:
                raise RuntimeError('argument modified')
            chi, X = out if fluct else (out, None)
            z = dict(got=ints(complex(chi), s.N * s.kT ** 2 / 4))
            if fluct:
                if X.shape != (*s.shape, s.nb, s.nb, s.nb):
                    raise RuntimeError('wrong shape')
                z['integrand'] = ints(X.reshape((s.N, s.nb, s.nb, s.nb)), s.kT ** 2 / 4)
            return z
        b = s.base()
        b.update(q=s.m[0])
        rec('triangle', i, work, Q=Qm, g1=cz(gs[0][1]), g2=cz(gs[1][1]), g3=cz(gs[2][1]), integrand=[], **b)

    for i in range(c.q(60, 900)):
        s = Case(rng, nb=1, square=True, span=2)
        while s.N == 1:
            s = Case(rng, nb=1, square=True, span=2)
        nm = rng.randint(1, 2)
        mats = rng.choice((5, 20, 50))
        hyb = dict(hyb_width=1.5, hyb_height=rng.choice((0.0, 0.3)))
        g, gf = s.mesh(rng, (len(s.q), nm), (), real=True)
        single = rng.random() < 0.5
        kT = s.kT
        def table():
            out = []
            for x in range(-2, 3):
                for y in range(-2, 3):
                    # all pairs of a one-point mesh and of a two-by-two mesh
                    e = np.array([[x, y], [y, x]]) * kT if x != y else np.array([[x]]) * kT
                    chi = D.susceptibility2(e.astype(float), kT=kT, nmats=mats, **hyb)
                    v = chi(np.pi, 0) if x != y else chi(0, 0)
                    out.append([x, y, int(round(v.real * 1e7))])
            return out
        def work():
            kw = dict(kT=kT, nmats=mats, **hyb)
            if single:
                chi = D.susceptibility2(s.e[..., 0], **kw)
                v = np.array([[chi(*q)] for q in s.q])
            else:
                v = D.phonon_self_energy2(np.array(s.q), s.e[..., 0], g, **kw)
            if single:
                v = v * s.N
            else:
                v = v * s.N
            if not np.all(np.isfinite(v)):
                raise RuntimeError('not a number')
            return dict(got=[[int(round(x.real * 1e7)) for x in row] for row in v], table=table())
        b = s.base()
        rec('pairs', i, work, g=ints(np.ones((len(s.q), 1, s.N))) if single else ints(gf), nm=1 if single else nm,
            table=[], tol=200, **b)

    for i in range(c.q(80, 1200)):
        s = Case(rng, nb=rng.randint(1, 2), degree=2, span=2)
        nm = rng.randint(1, 2)
        u = math.log(2)
        kT = rng.choice((0.025, 1.0, 2.0))
        w1 = u * kT # energies in units of this frequency, N(1) = 1, N(2) = 1/3
        w = [[rng.randint(1, 2) for _ in range(nm)] for _ in range(s.N)]
        g, gf = s.mesh(rng, (), (nm, len(s.q), s.nb, s.nb))
        while True:
            omega = [[rng.randint(-2, 2), rng.choice((1, 1, -1, 2))] for _ in range(rng.randint(1, 2))]
            lcm = 1
            for o in omega:
                for a in range(-4, 5):
                    lcm = math.lcm(lcm, (a + o[0]) ** 2 + o[1] ** 2)
            if lcm < 40000:
                break
        def work():
            S = D.fan_migdal_self_energy(s.q, np.array(s.x, float).reshape((*s.shape, s.nb)) * w1,
                np.array(w, float).reshape((*s.shape, nm)) * w1, g,
                np.array([(a + 1j * b) * w1 for a, b in omega]), kT=kT, occupations=Polynomial(s.c, u))
            return dict(got=ints(S.reshape((len(s.q), s.nb, len(omega))), 3 * lcm * s.N * w1, tol=1e-3))
        rec('fan', i, work, g=cz(gf), w=w, nm=nm, lcm=lcm, omega=omega, **s.base())
    c.judge('DiagramsTrace', recs)
