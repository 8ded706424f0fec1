"""Degree elevation."""
import numpy as np
from vlib import gen, work
from vlib.judge import call, spread
from vlib.ref import Obj


def case(c):
    rng = c.rng
    nrb = work.obj(c)
    log = []
    for _ in range(int(rng.integers(1, 3))):
        ax = work.axis(c, nrb)
        k = gen.choice(rng, ['default', 'none', 'zero', 'n', 'n', 'n', 'n', 'many'])
        if k == 'many':
            t = int(rng.integers(3, 8))
            if nrb.array.size * (t + 1) > 6000 or nrb.degree[ax] + t > 12:
                t = 2
        else:
            t = int(rng.integers(1, 4))
        log.append((ax, k, t))
        c.note(steps=log)
        if k == 'default':
            call(c, nrb, 'elevate', ax)
        elif k == 'none':
            call(c, nrb, 'elevate', ax, None)
        elif k == 'zero':
            call(c, nrb, 'elevate', ax, times=0)
        else:
            call(c, nrb, 'elevate', ax, np.int32(t) if rng.random() < .2 else t)
        if nrb.array.size > 6000:
            break
    # elevating by s and then by t is elevating by s+t
    if rng.random() < .3 and nrb.array.size < 2000:
        ax = work.axis(c, nrb)
        a, b = nrb.copy().elevate(ax, 2), nrb.copy().elevate(ax).elevate(ax)
        pa, pb = Obj.of(a), Obj.of(b)
        for x, y in zip(pa.knots, pb.knots):
            c.same(x, y, 'elevations do not add up: knots')
        c.ev('elevate-adds-up')
        i = range(nrb.dim)[ax]
        if nrb.degree[i] > 4 or spread(nrb.degree[i], nrb.knots[i]) > 12:
            return c.nontrivial(nrb.array, *nrb.knots)
        H = np.max(np.abs(pb.array), axis=tuple(range(pb.dim)))
        c.near(pa.array, pb.array, H + 0 * pb.array, 'elevations do not add up', K=1e8)
    if c.idx % 40 == 1:     # far up: large binomials
        m = work.obj(c, dim=1, degs=[int(rng.integers(1, 5))], maxspan=2)
        call(c, m, 'elevate', 0, int(rng.integers(20, 61)))
        c.ev('elevate:far')
    if c.idx == 0:      # the known finding's own input
        rng2 = np.random.default_rng(28)
        U = np.concatenate([np.zeros(11), np.sort(rng2.uniform(0.01, 0.99, 20)), np.ones(11)])
        m = work.NURBS([U], rng2.normal(size=(31, 3)))
        call(c, m, 'elevate', 0, 1)
    o = Obj.of(nrb)
    c.nontrivial(o.array, *o.knots)
