import sys
from common import *
import numpy as np
import elphmod
misc, b = elphmod.misc, elphmod.bravais

def expression(rng, depth=0, atoms='abcxyz123'):
    """Random expression: AST and text (of alternatives)."""
    alts, texts = [], []
    for _ in range(rng.randint(1, 3)):
        parts, text = [], ''
        for _ in range(rng.choice((0, 1, 1, 2, 2, 3)) if depth else rng.randint(1, 3)):
            if depth < 3 and rng.random() < (0.45 if depth < 2 else 0.25):
                a, t = expression(rng, depth + 1, atoms)
                parts.append(dict(group=True, lit='', alts=a))
                text += '\0' + t + '\1'
            else:
                s = ''.join(rng.choice(atoms) for _ in range(rng.randint(1, 2)))
                parts.append(dict(group=False, lit=s, alts=[]))
                text += s
        alts.append(parts)
        texts.append(rng.choice(('', '', ' ', '  ')) + text + rng.choice(('', '', ' ')))
    return alts, '\2'.join(texts)

def size(alts):
    n = 0
    for parts in alts:
        m = 1
        for p in parts:
            m *= size(p['alts']) if p['group'] else 1
        n += m
    return n

X, NUM, N, L = ('Ta', 'S', 'C', 'Se'), ('', '1', '2', '12'), ('', '2', '3', '5'), 'spd'
M = dict(s=('',), p=('z', 'x', 'y'), d=('z2', 'xz', 'yz', 'x2-y2', 'xy'))

def orbital(rng):
    l = rng.choice(L)
    return [rng.choice(X), rng.choice(NUM), rng.choice(N), l, rng.choice(M[l])]

def name(o):
    return o[0] + o[1] + '-' + o[2] + o[3] + o[4] if o[0] else '-' * bool(o[2] or o[3]) + o[2] + o[3] + o[4]

def run(c):
    rng = c.rng
    c.explore('HelpersDesign', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = 4\nINVARIANT Invariant\n')
    recs = []
    def rec(kind, key, work, **kw):
        r = dict(key='%s-%s' % (kind, key), kind=kind, exc='', got=[], **kw)
        ok, v = call(work)
        r.update(dict(got=v) if ok == 'ok' else dict(exc=v))
        recs.append(r)
    for i in range(c.q(300, 4000)):
        while True:
            alts, text = expression(rng)
            if size(alts) <= 60:
                break
        custom = rng.choice((',{}', ',{}', ',{}', ';[]', '|()', '+{}', ',^]', ',()', '/[}'))
        text = text.replace('\2', custom[0]).replace('\0', custom[1]).replace('\1', custom[2])
        def work():
            if custom == ',{}':
                return list(misc.split(text))
            return list(misc.split(text, *custom))
        rec('split', i, work, expr=alts, text=text)
    for i in range(c.q(150, 1500)):
        orbs = [orbital(rng) for _ in range(rng.randint(1, 10))]
        if rng.random() < 0.3:
            orbs.append(['X', '', '', 'x', ''])
        nk, nb = rng.randint(1, 3), rng.randint(1, 3)
        P = np.array([[[rng.randint(-9, 9) for _ in orbs] for _ in range(nb)] for _ in range(nk)], float)
        groups, texts = [], []
        for _ in range(rng.randint(1, 3)):
            sels, parts = [], []
            for _ in range(rng.randint(1, 2)):
                o = list(rng.choice(orbs)) if rng.random() < 0.7 else orbital(rng)
                sel = [x if rng.random() < 0.6 else '' for x in o]
                if not sel[0]:
                    sel[1] = ''
                if not sel[3]:
                    sel[4] = ''
                form = rng.random()
                if form < 0.5 or not sel[0] or sel[0] == 'X':
                    sels.append(sel)
                    parts.append(name(sel))
                elif form < 0.8: # several elements
                    other = [x for x in X if x != sel[0]]
                    k = rng.sample(other, rng.randint(1, 2))
                    for x in [sel[0], *k]:
                        sels.append([x, *sel[1:]])
                    parts.append('{' + ', '.join([sel[0], *k]) + '}' + name(sel)[len(sel[0]):])
                else: # several shells with nested alternatives
                    sel = [*sel[:3], 'd', 'z2']
                    sels += [sel, [*sel[:4], 'xy'], [*sel[:3], 'p', 'x'], [*sel[:3], 'p', 'y']]
                    parts.append(name(sel)[:-3] + '{d{z2, xy}, p{x,y}}')
            groups.append(sels)
            texts.append(rng.choice((', ', ',')).join(parts))
        other = rng.random() < 0.4
        def work():
            kw = dict(other=True) if other else {}
            ref = digest(P)
            out = elphmod.el.proj_sum(P, [name(o) for o in orbs], *texts, **kw)
            if out.shape != (nk, nb, len(texts) + other):
                raise RuntimeError('wrong shape')
            if digest(P) != ref:
                raise RuntimeError('argument modified')
            return ints(out.reshape((nk * nb, -1)))
        rec('sum', i, work, groups=groups, texts=texts, orbitals=orbs, proj=ints(P.reshape((nk * nb, -1))), other=other)
    for i in range(c.q(150, 2000)):
        dim = rng.randint(1, 3)
        eps = rng.randint(1, 4)
        pts = [[rng.randint(0, 8) for _ in range(dim)] for _ in range(rng.randint(1, 9))]
        scale = rng.choice((1.0, 1e-8, 0.25))
        def work():
            p = np.array(pts, float) * scale
            # strictly between integer distances
            g = misc.group(p, eps=(eps - 0.5) * scale) if scale != 1e-8 or rng.random() < 0.5 else misc.group(p, (eps - 0.5) * scale)
            return [[int(k) for k in x] for x in g]
        rec('group', i, work, points=pts, eps=eps)
    for i in range(c.q(100, 1000)):
        dim = rng.randint(1, 4)
        V = [[rng.randint(-1, 1) for _ in range(dim)] for _ in range(rng.randint(1, 9))]
        v = rng.choice(V) if rng.random() < 0.5 else [rng.randint(-1, 1) for _ in range(dim)]
        def work():
            k = misc.vector_index(np.array(V), np.array(v) if rng.random() < 0.5 else tuple(v))
            return -1 if k is None else int(k)
        rec('index', i, work, vectors=V, vector=v)
    for i in range(c.q(40, 400)):
        x = rng.sample(range(-9, 10), 3)
        a, h, k = rng.randint(-3, 3), rng.randint(-9, 9), rng.randint(-9, 9)
        y = [a * (t - h) ** 2 + k for t in x]
        cli = rng.random() < 0.5
        def work():
            old = sys.argv, misc.verbosity
            try:
                sys.argv = ['minimum', *map(str, x + y)] if cli else ['check.py']
                out = misc.minimum() if cli else misc.minimum(*x, *y)
            finally:
                sys.argv = old[0]
            return [] if out is None else [ints(out)]
        rec('minimum', i, work, x=x, y=y, a=a, h=h, c=k)
    for i in range(c.q(30, 300)):
        x = sorted(rng.sample(range(-30, 30), rng.randint(2, 8)))
        rec('differential', i, lambda: ints(misc.differential(np.array(x, float)), 2), x=x)
    for i in range(c.q(100, 1000)):
        A, B = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(2)]
        if A == B:
            continue
        t = rng.choice((-1, 0, 0.5, 0.5, 1, 2))
        P = [int(2 * (x + t * (y - x))) for x, y in zip(A, B)]
        if rng.random() < 0.3:
            P[rng.randrange(3)] += rng.choice((-1, 1))
        rec('between', i, lambda: bool(b.point_on_path(np.array(P) / 2.0, np.array(A, float), np.array(B, float))),
            a=[2 * x for x in A], b=[2 * x for x in B], p=P)
    c.judge('HelpersTrace', recs)
