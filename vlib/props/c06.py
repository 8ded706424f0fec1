"""Clamping and unclamping."""
from vlib import gen, work
from vlib.judge import call
from vlib.ref import Obj


def case(c):
    rng = c.rng
    nrb = work.obj(c)
    log = []
    for _ in range(int(rng.integers(1, 4))):
        ax = work.axis(c, nrb)
        side = gen.choice(rng, [None, 0, 1])
        op = gen.choice(rng, ['clamp', 'unclamp', 'unclamp'])
        kw = {}
        if side is not None or rng.random() < .3:
            kw['side'] = side
        if op == 'unclamp' and rng.random() < .6:
            kw['continuity'] = int(rng.integers(0, nrb.degree[ax]))
        log.append((op, ax, kw))
        c.note(steps=log)
        call(c, nrb, op, ax, **kw)
        c.ev('%s:side-%s' % (op, side))
    o = Obj.of(nrb)
    c.nontrivial(o.array, *o.knots)
