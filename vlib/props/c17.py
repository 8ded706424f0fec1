"""compat, ruled."""
import numpy as np
from vlib import gen, work
from vlib.cadjudge import call


def family(c, dim, n, dom=None, **kw):
    """Objects of one dimension whose axes are nested, equal or unrelated."""
    rng = c.rng
    kw.setdefault('maxdeg', {1: 5, 2: 3, 3: 2}[dim])
    kw.setdefault('maxspan', {1: 5, 2: 3, 3: 2}[dim])
    dom = dom or gen.choice(rng, ['unit', 'unit', 'int', 'affine', 'offset', None])
    out = [work.obj(c, dim=dim, dom=dom, **kw)]
    while len(out) < n:
        k = gen.choice(rng, ['fresh', 'fresh', 'refined', 'elevated', 'mapped', 'nudged'])
        o = out[int(rng.integers(len(out)))].copy() if k != 'fresh' else work.obj(c, dim=dim, dom=dom, **kw)
        ax = int(rng.integers(dim))
        if k == 'refined':
            v = work.knot_list(c, o, ax, ['inner', 'knot'], 3, near=False)
            o.refine(ax, v)
        elif k == 'elevated':
            o.elevate(ax, int(rng.integers(1, 3)))
        elif k == 'mapped':
            a = float(rng.uniform(-3, 3))
            o.remap(ax, a, a + float(rng.uniform(.5, 4)))
        elif k == 'nudged':
            # the same knots on a domain that differs by rounding
            p, U = o.degree[ax], o.knots[ax]
            b = U[-p - 1] + (U[-p - 1] - U[p]) * 10 ** rng.uniform(-14, -3)
            if b > U[-p - 1]:
                o.remap(ax, None, b)
        if k != 'fresh':
            A = o.array.copy()
            A[..., :3] += rng.normal(size=A.shape[:-1] + (3,)) * A[..., 3:4]
            o = work.make(o.knots, A)
        c.ev('family:' + k)
        out.append(o)
    if rng.random() < .3:
        rng.shuffle(out)
    return out


def case(c):
    rng = c.rng
    dim = gen.choice(rng, [1, 1, 2, 2, 3])
    if rng.random() < .6:
        ns = family(c, dim, int(rng.integers(1, 4)))
        kw = {}
        if rng.random() < .35:
            kw['axes'] = gen.choice(rng, [int(rng.integers(-dim, dim)), [int(rng.integers(dim))],
                                          list(range(dim)), []])
        if rng.random() < .25:
            ret = call(c, 'compat', list(ns), **kw)
        else:
            ret = call(c, 'compat', *ns, **kw)
        c.nontrivial('compat', *[r.array for r in ret])
    else:
        dim = min(dim, 2)
        a, b = family(c, dim, 2)
        ret = call(c, 'ruled', a, b)
        c.nontrivial('ruled', ret.array, *ret.knots)
