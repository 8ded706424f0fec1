"""Knot insertion and refinement."""
import numpy as np
from vlib import gen, work
from vlib.judge import call
from vlib.ref import Obj


def case(c):
    rng = c.rng
    nrb = work.obj(c)
    log = []
    for _ in range(int(rng.integers(1, 5))):
        ax = work.axis(c, nrb)
        if rng.random() < .5:
            v, kind, m = work.room(c, nrb, ax)
            if c.idx % 40 == 0 and rng.random() < .5:       # known finding's mechanism
                v = float(nrb.knots[ax][nrb.degree[ax]])
                m = max(0, nrb.degree[ax] - int(np.sum(nrb.knots[ax] == v)))
            k = gen.choice(rng, ['default', 'none', 'times', 'times', 'max', 'zero'])
            log.append(('insert', ax, v, kind, k, m))
            c.note(steps=log)
            if k == 'default' and m:
                call(c, nrb, 'insert', ax, v)
            elif k == 'none':
                call(c, nrb, 'insert', ax, v, None)
            elif k == 'zero':
                call(c, nrb, 'insert', ax, v, times=0)
            else:
                call(c, nrb, 'insert', ax, v, m if k == 'max' else int(rng.integers(0, m + 1)))
            c.ev('insert:' + kind)
            if c.knowns:
                break
        else:
            vals = work.knot_list(c, nrb, ax)
            arg = work.values_arg(c, vals) if vals else gen.choice(rng, [None, [], np.empty(0)])
            log.append(('refine', ax, vals))
            c.note(steps=log)
            call(c, nrb, 'refine', ax, arg)
        if nrb.array.size > 6000:
            break
    # one refine equals the same insertions one by one, up to rounding
    if not c.knowns and rng.random() < .4:
        ax = work.axis(c, nrb)
        vals = work.knot_list(c, nrb, ax, most=3)
        a, b = nrb.copy().refine(ax, vals), nrb.copy()
        for v in vals:
            b.insert(ax, v)
        pa, pb = Obj.of(a), Obj.of(b)
        for x, y in zip(pa.knots, pb.knots):
            c.same(x, y, 'refine and repeated insert give different knots')
        H = np.max(np.abs(pb.array), axis=tuple(range(pb.dim)))
        c.near(pa.array, pb.array, H + 0 * pb.array, 'refine and repeated insert differ', K=1e5)
        c.ev('refine-vs-insert')
    o = Obj.of(nrb)
    c.nontrivial(o.array, *o.knots)
