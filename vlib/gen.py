"""Seeded generators of knot vectors, NURBS objects and requests."""
import numpy as np


def choice(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def breaks(rng, nspan, kind=None):
    kind = kind or choice(rng, ['uniform', 'random', 'random', 'tenths', 'graded'])
    if kind == 'uniform':
        d = np.ones(nspan)
    elif kind == 'tenths':
        return np.round(np.concatenate([[0], np.cumsum(rng.integers(1, 4, nspan))]) * 0.1, 1), kind
    elif kind == 'graded':
        # neighbouring spans differ up to 4:1, all spans up to 5000:1
        d = rng.uniform(1.1, max(1.15, min(4.0, 5000 ** (1 / max(1, nspan - 1))))) ** np.arange(nspan)
        if rng.random() < .5:
            d = d[::-1]
    else:
        d = rng.uniform(0.1, 1.0, nspan)
    return np.concatenate([[0], np.cumsum(d) / np.sum(d)]), kind


def domain(rng, b, kind=None):
    kind = kind or choice(rng, ['unit', 'unit', 'unit', 'int', 'affine', 'negative',
                                'offset', 'tiny', 'huge'],)
    if kind == 'unit':
        s, o = 1.0, 0.0
    elif kind == 'int':
        s, o = float(rng.integers(1, 12)), float(rng.integers(-5, 6))
    elif kind == 'affine':
        s, o = rng.uniform(0.3, 7), rng.uniform(-3, 3)
    elif kind == 'negative':
        s, o = rng.uniform(0.5, 2), -rng.uniform(3, 9)
    elif kind == 'offset':
        s, o = rng.uniform(0.5, 2), choice(rng, [1e2, 1e3, -1e3])
    elif kind == 'tiny':
        s, o = choice(rng, [1e-3, 1e-5, 1e-7]), choice(rng, [0.0, 0.0, 1e-3])
        if o == 0 and rng.random() < .4:
            s = choice(rng, [1e-10, 1e-13, 1e-17])
    else:
        s, o = choice(rng, [1e3, 1e5, 1e7, 1e10]), 0.0
    return b * s + o, kind


def knots(rng, p, nspan=None, ends=None, mult=None, dom=None, spacing=None, maxspan=5):
    """A valid knot vector of degree p.  ends: clamped / periodic / uniform /
    random / half; returns (U, tag)."""
    if nspan is None:
        nspan = int(rng.integers(1, maxspan + 1))
    b, bk = breaks(rng, nspan, spacing)
    b, dk = domain(rng, b, dom)
    if np.any(np.diff(b) <= 0):
        b = np.linspace(0, 1, nspan + 1)
    mk = mult or choice(rng, ['simple', 'mixed', 'mixed', 'full'])
    if mk == 'simple':
        m = np.ones(nspan - 1, int)
    elif mk == 'full':
        m = np.full(nspan - 1, p)
    else:
        m = rng.integers(1, p + 1, nspan - 1)
    inner = np.repeat(b[1:-1], m)
    ends = ends or choice(rng, ['clamped'] * 6 + ['periodic', 'uniform', 'random', 'half', 'mixed'])
    a, c = b[0], b[-1]
    h = (c - a) / nspan

    def outside(sign, edge, kind):
        """p+1 knots ending at `edge`, nearest first."""
        if kind == 'clamped':
            return np.full(p + 1, edge)
        if kind == 'uniform':
            return edge + sign * h * np.arange(p + 1)
        # random: s knots at the edge, the rest strictly outside (maybe repeated)
        s = int(rng.integers(1, p + 1))
        st = np.where(rng.random(p + 1 - s) < .25, 0, rng.uniform(0.1, 1.0, p + 1 - s)) * h
        if len(st):
            st[0] = max(st[0], 0.1 * h)
        r = edge + sign * np.concatenate([np.zeros(s), np.cumsum(st)])
        return r
    if ends == 'periodic':
        per = c - a
        body = np.concatenate([[a], inner])
        ext = np.concatenate([body - 3 * per, body - 2 * per, body - per, body,
                              body + per, body + 2 * per, body + 3 * per])
        # enough copies for high degrees
        k = 4
        while np.sum(ext < a) < p or np.sum(ext > c) < p:
            ext = np.concatenate([body - k * per, ext, body + k * per])
            k += 1
        left = np.sort(ext[ext < a])[::-1][:p]
        right = np.sort(ext[ext > c])[:p]
        # the ends carry the multiplicity of a simple knot
        U = np.concatenate([left[::-1], [a], inner, [c], right])
    else:
        if ends == 'half':
            l, r = choice(rng, [('clamped', 'random'), ('random', 'clamped'),
                                ('clamped', 'uniform'), ('uniform', 'clamped')])
        elif ends == 'mixed':
            l, r = 'random', 'uniform'
        else:
            l = r = ends
        U = np.concatenate([outside(-1, a, l)[::-1], inner, outside(+1, c, r)])
    U = np.asarray(U, dtype='d')
    # generation can round two knots together on extreme domains: fall back
    n = len(U) - p - 2
    ok = (np.all(np.diff(U) >= 0) and U[p] < U[p + 1] and U[n] < U[n + 1])
    inn = U[1:-1]
    if ok and len(inn) > p and np.any(inn[p:] == inn[:-p]):
        ok = False
    if not ok:
        U = np.concatenate([np.zeros(p + 1), np.ones(p + 1)])
        bk, dk, mk, ends = 'bezier', 'unit', 'none', 'clamped'
    return U, (bk, dk, mk, ends)


def nurbs_data(rng, dim=None, degs=None, ends=None, dom=None, weights=None,
               nfields=None, scale=None, maxspan=None, maxdeg=None, mult=None, spacing=None, points=None):
    """knots, control(points 3D), weights or None, fields or None, tag."""
    if dim is None:
        dim = choice(rng, [1, 1, 2, 2, 3])
    maxdeg = maxdeg or {1: 6, 2: 4, 3: 3}[dim]
    maxspan = maxspan or {1: 6, 2: 4, 3: 2}[dim]
    if degs is None:
        degs = [int(rng.integers(1, maxdeg + 1)) for _ in range(dim)]
    Us, tags = [], []
    for p in degs:
        U, t = knots(rng, p, ends=ends, dom=dom, maxspan=maxspan, mult=mult, spacing=spacing)
        Us.append(U)
        tags.append(t)
    if dim > 1 and len(set(degs)) == 1 and rng.random() < .25:
        Us, tags = [Us[0]] * dim, [tags[0]] * dim       # one array for all axes
    shape = tuple(len(U) - p - 1 for U, p in zip(Us, degs))
    scale = scale or choice(rng, [1.0, 1.0, 1.0, 1e-3, 1e3, 1.0, 1.0, choice(rng, [1e-8, 1e8])])
    P = rng.normal(size=shape + (3,)) * scale
    if rng.random() < 0.25:
        P += rng.normal(size=3) * 10 * scale
    pk = choice(rng, ['general'] * 15 + ['planar', 'height', 'line', 'repeated', 'lattice', 'zero', 'point', 'closed', 'pole'])
    if points is not None:
        pk = points
    if pk == 'planar':
        P[..., int(rng.integers(3))] = 0
    elif pk == 'height':
        P[..., int(rng.integers(3))] = rng.normal() * scale
    elif pk in ('closed', 'pole'):
        i = int(rng.integers(dim))
        Q = np.moveaxis(P, i, 0)
        if pk == 'closed':          # the ends of an axis meet
            Q[-1] = Q[0]
        else:                       # one end of an axis is a point
            Q[choice(rng, [0, -1])] = rng.normal(size=3) * scale
    elif pk == 'line':
        P = rng.normal(size=shape + (1,)) * rng.normal(size=3) * scale
    elif pk == 'repeated':          # coincident control points
        for _ in range(int(rng.integers(1, 5))):
            i, j = [tuple(int(rng.integers(s)) for s in shape) for _ in range(2)]
            P[i] = P[j]
    elif pk == 'lattice':
        P = rng.integers(1, 4, shape + (3,)) * rng.choice([-1, 1, 1], shape + (3,)) * scale
    elif pk == 'zero':
        P[...] = 0
    elif pk == 'point':
        P[...] = rng.normal(size=3) * scale
    wk = weights or choice(rng, ['none', 'mild', 'mild', 'mild', 'wide', 'wide', 'tinyall', 'tinyall', 'const', 'axis', 'nearone', 'single'])
    if wk == 'none':
        w = None
    elif wk == 'mild':
        w = rng.uniform(0.4, 2.5, shape)
    elif wk == 'wide':
        w = np.exp(rng.uniform(np.log(0.05), np.log(20), shape))
    elif wk == 'const':             # all equal, and not 1
        w = np.full(shape, choice(rng, [.5, 2.0, .3, 7.0, 1.0]))
    elif wk == 'axis':              # along one direction only
        i = int(rng.integers(dim))
        w = np.zeros(shape) + rng.uniform(.4, 2.5, shape[i]).reshape([-1 if j == i else 1 for j in range(dim)])
    elif wk == 'nearone':
        w = 1 + choice(rng, [1e-3, 1e-6, 1e-9]) * rng.uniform(-1, 1, shape)
    elif wk == 'single':            # one weight differs
        w = np.ones(shape)
        w[tuple(int(rng.integers(s)) for s in shape)] = rng.uniform(.3, 3)
    else:
        w = rng.uniform(0.5, 1.5, shape) * choice(rng, [1e-4, 1e4, 1e-4, 1e4, 1e-9, 1e9])
    nf = int(rng.integers(0, 4)) if nfields is None else nfields
    F = None
    if nf:
        F = rng.normal(size=shape + (nf,)) * choice(rng, [1.0, 1.0, 1e2, 1e-2])
        fk = choice(rng, ['general'] * 12 + ['zero', 'constant', 'column', 'ones'])
        if fk == 'zero':
            F[...] = 0
        elif fk == 'constant':
            F[...] = rng.normal(size=nf)
        elif fk == 'column':
            F[..., int(rng.integers(nf))] = 0
        elif fk == 'ones':
            F[...] = 1
    return Us, P, w, F, dict(dim=dim, degs=list(map(int, degs)), shape=list(map(int, shape)),
                             knots=tags, weights=wk, points=pk, nf=nf)


def make(rng, NURBS, **kw):
    Us, P, w, F, tag = nurbs_data(rng, **kw)
    return NURBS(Us, P, fields=F, weights=w), tag


def param(rng, p, U, kind=None):
    """A parameter value of the domain: interior, knot, near a knot, or end."""
    a, b = U[p], U[-p - 1]
    br = np.unique(U[p:len(U) - p])
    kind = kind or choice(rng, ['inner', 'inner', 'inner', 'knot', 'near', 'left', 'right'])
    if kind == 'knot' and len(br) > 2:
        return float(choice(rng, br[1:-1])), 'knot'
    if kind == 'near':
        k = float(choice(rng, br))
        d = 10.0 ** rng.uniform(-12, -2) * (b - a)
        v = k + d * choice(rng, [-1, 1])
        if a < v < b and v not in br:
            return float(v), 'near'
    if kind == 'left':
        return float(a), 'left'
    if kind == 'right':
        return float(b), 'right'
    i = int(rng.integers(len(br) - 1))
    v = br[i] + rng.uniform(0.05, 0.95) * (br[i + 1] - br[i])
    return float(v), 'inner'
