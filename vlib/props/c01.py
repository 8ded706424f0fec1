"""Evaluation."""
import numpy as np
from vlib import gen, work
from vlib.judge import call, KE
from vlib.ref import Obj


def case(c):
    rng = c.rng
    nrb = work.obj(c)
    pre = Obj.of(nrb)
    for _ in range(3):
        args = work.uvw(c, nrb)
        mode = gen.choice(rng, ['points', 'true', 'given', 'evaluate', 'evaluate-given'])
        c.note(args=args, mode=mode)
        kw = work.call_uvw(args)
        if mode == 'points':
            if rng.random() < .5:
                r = call(c, nrb, '__call__', *args)
            else:
                r = call(c, nrb, '__call__', **kw)
        elif mode == 'true':
            r = call(c, nrb, '__call__', fields=True, **kw)
        elif mode == 'given':
            r = call(c, nrb, '__call__', fields=work.fields(c, nrb), **kw)
        elif mode == 'evaluate':
            r = call(c, nrb, 'evaluate', **kw)
        else:
            r = call(c, nrb, 'evaluate', work.fields(c, nrb), *args)
        c.ev('mode:' + mode)
    # every span, knot, end and one-ulp neighbour, in one batch
    g = [np.unique(np.concatenate([x, np.clip(np.nextafter(x, np.inf), *pre.domain(i)),
                                   np.clip(np.nextafter(x, -np.inf), *pre.domain(i))]))
         for i, x in enumerate(judge_grid(pre, rng))]
    a = call(c, nrb, '__call__', *g, fields=bool(pre.array.shape[-1] > 4))
    b = nrb(*g, fields=bool(pre.array.shape[-1] > 4))
    for x, y in zip(a if isinstance(a, tuple) else [a], b if isinstance(b, tuple) else [b]):
        c.same(x, y, 'two evaluations of one object differ')
    # point by point: the tensor evaluation has no cross-talk
    for _ in range(2):
        i = tuple(int(rng.integers(len(x))) for x in g)
        p = nrb(*[x[k] for x, k in zip(g, i)])
        q = a[0] if isinstance(a, tuple) else a
        V, E = pre.eval([np.array([x[k]]) for x, k in zip(g, i)])
        c.near(p, q[i], E.reshape(-1)[:3], 'a point differs from the same point in a grid', K=2 * KE)
    if rng.random() < .3:
        # a zero-dimensional object evaluates to its point
        z = nrb
        vals = []
        while z.dim:
            ax = int(rng.integers(z.dim))
            v = gen.param(rng, z.degree[ax], z.knots[ax])[0]
            z = z.extract(ax, v)
        A = np.asarray(z.array)
        c.near(z(), A[:3] / A[3], np.abs(A[:3] / A[3]), 'evaluation of a point object', K=4)
        c.ev('point-objects')
    c.nontrivial(pre.array, *pre.knots)


def judge_grid(pre, rng):
    from vlib.judge import grid_for
    return grid_for(pre, rng, per=1, limit=400)
