"""Primitive shapes."""
import numpy as np
from vlib import gen
from vlib.cadjudge import call


def center(rng):
    k = gen.choice(rng, ['none', 'scalar', 'list', 'array', 'far'])
    if k == 'none':
        return None
    if k == 'scalar':
        return float(rng.uniform(-4, 4))
    v = rng.uniform(-4, 4, int(rng.integers(1, 4))) * (1e3 if k == 'far' else 1)
    return v.tolist() if k == 'list' else v


def arc(rng):
    """An angle argument with non-zero sweep, mostly of at most one turn."""
    k = gen.choice(rng, ['none', 'float', 'quarter', 'pair', 'pair', 'zero', 'start', 'end', 'near', 'tiny', 'over', 'turns'])
    q = np.pi / 2
    if k == 'none':
        return None
    if k == 'float':
        return float(rng.uniform(.01, 2 * np.pi)) * gen.choice(rng, [-1, 1])
    if k == 'quarter':
        return gen.choice(rng, [1, 2, 3, 4, -1, -2, -3, -4]) * q
    if k == 'near':
        n = int(rng.integers(1, 4))
        return n * q * (1 + gen.choice(rng, [-1, 1]) * 10 ** rng.uniform(-15, -3))
    if k == 'tiny':
        return float(10 ** rng.uniform(-6, -2)) * gen.choice(rng, [-1, 1])
    if k == 'turns':            # more than once around
        s = float(rng.uniform(1.01, 1.6)) * 2 * np.pi * gen.choice(rng, [-1, 1])
        a = float(rng.uniform(-7, 7))
        return s if rng.random() < .5 else (a, a + s)
    if k == 'start':
        return (None, float(rng.uniform(.3, 6)) * gen.choice(rng, [-1, 1, 1]))
    if k == 'end':
        return [float(rng.uniform(.1, 6)), None]
    a = float(rng.uniform(-7, 7)) if k != 'zero' else gen.choice(rng, [0, 0.0, -0.0])
    s = float(rng.uniform(.05, 2 * np.pi)) * gen.choice(rng, [-1, 1])
    if k == 'over':
        s = gen.choice(rng, [1, 2, 3, 4, -1, -2, -3, -4]) * q
    if k in ('pair', 'zero') and rng.random() < .2:     # ends at zero
        return gen.choice(rng, [tuple, list])((s, 0))
    return gen.choice(rng, [tuple, list])((a, a + s))


def coords(rng, shape, lo=1, hi=3):
    P = rng.normal(size=shape + (int(rng.integers(lo, hi + 1)),)) * gen.choice(rng, [1, 1, 1e3, 1e-3])
    k = rng.random()
    if k < .15:         # in a plane (or on a line) parallel to the axes
        for i in rng.permutation(P.shape[-1])[:int(rng.integers(1, 3))]:
            P[..., i] = rng.normal()
    elif k < .3:        # short numbers, many of them equal
        P = np.round(P / np.abs(P).max() * 2) * gen.choice(rng, [1, .5, -1])
    return P.tolist() if rng.random() < .3 else P


def case(c):
    rng = c.rng
    sig = []
    for name in ('circle', 'circle', 'line', 'linear', 'bilinear', 'trilinear', 'grid'):
        kw = {}
        if name == 'circle':
            kw = dict(center=center(rng), angle=arc(rng))
            if rng.random() < .85:
                kw['radius'] = gen.choice(rng, [1, 2.5, 1e-3, 1e4, float(rng.uniform(.1, 9)), np.float64(3)])
            kw = {k: v for k, v in kw.items() if v is not None or rng.random() < .5}
        elif name == 'line':
            for k in ('p0', 'p1'):
                if rng.random() < .85:
                    kw[k] = gen.choice(rng, [coords(rng, ()), coords(rng, ()), float(rng.normal())])
        elif name in ('linear', 'bilinear', 'trilinear'):
            if rng.random() < .85:
                sh = dict(linear=(2,), bilinear=(2, 2), trilinear=(2, 2, 2))[name]
                if rng.random() < .3:
                    P = rng.normal(size=sh + (4,))
                    P[..., 3] = rng.uniform(.3, 3, sh)
                    kw['points'] = P
                else:
                    kw['points'] = coords(rng, sh, dict(linear=2, bilinear=2, trilinear=3)[name])
        else:
            kw = grid_args(rng)
        c.note(**{name: kw})
        if kw and rng.random() < .3 and name != 'circle' and name != 'line' and name != 'grid':
            call(c, name, kw['points'])
        else:
            call(c, name, **kw)
        sig.append(repr(kw))
    c.nontrivial(sig)


def grid_args(rng):
    dim = int(rng.integers(1, 4))
    top = {1: 12, 2: 6, 3: 3}[dim]
    N = rng.integers(1, top + 1, dim)
    deg = rng.integers(1, {1: 6, 2: 4, 3: 3}[dim] + 1, dim)
    kw = dict(shape=int(N[0]) if dim == 1 and rng.random() < .5 else gen.choice(rng, [tuple, list, np.array])(N.tolist()))
    if rng.random() < .8:
        if rng.random() < .4:
            deg[:] = deg[0]
            kw['degree'] = int(deg[0])
        else:
            kw['degree'] = gen.choice(rng, [tuple, list, np.array])(deg.tolist())
    else:
        deg[:] = 2
    C = deg - 1
    if rng.random() < .6:
        if rng.random() < .4:
            k = int(rng.integers(0, deg.min()))
            C = np.full(dim, k)
            kw['continuity'] = k
            if rng.random() < .4:
                k = -int(rng.integers(1, deg.min() + 1))
                C = deg + k
                kw['continuity'] = k
        else:
            C = np.array([int(rng.integers(0, p)) for p in deg])
            kw['continuity'] = np.where(rng.random(dim) < .3, C - deg, C)
            if rng.random() < .5:
                kw['continuity'] = kw['continuity'].tolist()
    if rng.random() < .6:
        a = rng.uniform(-5, 5, dim)
        lim = np.stack([a, a + rng.uniform(.01, 10, dim)], 1)
        if rng.random() < .4:
            lim[:] = lim[0]
            kw['limits'] = tuple(lim[0].tolist())
        else:
            kw['limits'] = lim if rng.random() < .5 else lim.tolist()
    if rng.random() < .5:
        # periodic ends need enough knots to copy
        ok = N * (deg - C) >= C + 1
        w = (rng.random(dim) < .6) & ok
        kw['wrap'] = bool(ok.all()) if rng.random() < .4 else (w if rng.random() < .5 else w.tolist())
    return kw
