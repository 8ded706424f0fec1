"""Slices, extractions, boundaries."""
from vlib import gen, work
from vlib.judge import call
from vlib.ref import Obj


def case(c):
    rng = c.rng
    nrb = work.obj(c)
    o = Obj.of(nrb)
    log = []
    cur = nrb
    for _ in range(3):
        if cur.dim == 0:
            break
        ax = work.axis(c, cur)
        p, U = cur.degree[ax], cur.knots[ax]
        op = gen.choice(rng, ['slice', 'slice', 'extract', 'boundary'])
        if op == 'slice':
            a, b = work.interval(c, p, U)
            # the known finding's mechanism is slicing at an unclamped end
            log.append((op, ax, a, b))
            c.note(steps=log)
            new = call(c, cur, 'slice', ax, a, b)
        elif op == 'extract':
            v, kind = gen.param(rng, p, U)
            log.append((op, ax, v, kind))
            c.note(steps=log)
            new = call(c, cur, 'extract', ax, v)
        else:
            s = int(rng.integers(2))
            log.append((op, ax, s))
            c.note(steps=log)
            new = call(c, cur, 'boundary', ax, s)
        if rng.random() < .5:
            cur = new
    c.nontrivial(o.array, *o.knots)
