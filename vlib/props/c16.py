"""Extrude, revolve, sweep."""
import numpy as np
from vlib import gen, work
from vlib.cadjudge import call
from .c15 import arc
from .c09 import direction, vec


def case(c):
    rng = c.rng
    dim = 1 if rng.random() < .6 else 2
    small = dict(maxdeg=3, maxspan=2) if dim == 2 else {}
    nrb = work.obj(c, dim=dim, **small)
    op = gen.choice(rng, ['extrude', 'revolve', 'revolve', 'sweep'])
    if op == 'extrude':
        if rng.random() < .5:
            a = (vec(rng),)
        elif rng.random() < .3:
            a = (float(rng.uniform(-4, 4)),)
        else:
            a = (float(rng.uniform(-4, 4)), int(rng.integers(-3, 3)))
        kw = {}
    elif op == 'revolve':
        p = gen.choice(rng, ['scalar', 'list', 'array', 'zero', 'far'])
        if p == 'scalar':
            p = float(rng.uniform(-3, 3))
        elif p == 'zero':
            p = 0
        else:
            p = rng.uniform(-3, 3, int(rng.integers(1, 4))) * (100 if p == 'far' else 1)
            if rng.random() < .4:
                p = p.tolist()
        a, kw = (p,), {}
        if rng.random() < .85:
            d = direction(rng)
            kw['axis'] = d
        if rng.random() < .85:
            kw['angle'] = arc(rng)
    else:
        t = work.obj(c, dim=1, maxspan=3, maxdeg=4)
        a, kw = (t,), {}
    c.note(op=op, args=a if op != 'sweep' else c.tag, kw=kw)
    ret = call(c, op, nrb, *a, **kw)
    c.nontrivial(op, ret.array, *ret.knots)
    if rng.random() < .3 and ret.dim == 2:
        # results are ordinary profiles themselves
        if np.prod(ret.shape) < 80:
            call(c, 'extrude', ret, vec(rng, 3))
