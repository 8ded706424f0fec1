"""join."""
import numpy as np
from vlib import gen, work
from vlib.cadjudge import call
from vlib.ref import Obj
from .c17 import family


def case(c):
    rng = c.rng
    dim = gen.choice(rng, [1, 1, 2, 2, 3])
    ax = int(rng.integers(dim))
    nf = int(rng.integers(0, 3))
    k = gen.choice(rng, ['fresh', 'fresh', 'cut', 'cut', 'lifted'])
    if k == 'cut':
        # two pieces of one object, then changed without moving
        n = work.obj(c, dim=dim, nfields=nf, maxdeg={1: 5, 2: 3, 3: 2}[dim], maxspan={1: 5, 2: 3, 3: 2}[dim])
        p, U = n.degree[ax], n.knots[ax]
        v = gen.param(rng, p, U, gen.choice(rng, ['inner', 'knot']))[0]
        a, b = n.slice(ax, None, v), n.slice(ax, v, None)
        for o in (a, b):
            if rng.random() < .4:
                i = int(rng.integers(dim))
                o.refine(i, work.knot_list(c, o, i, ['inner'], 2, near=False))
            if rng.random() < .3:
                i = int(rng.integers(dim))
                o.elevate(i, 1)
            if rng.random() < .3:
                s = float(rng.uniform(-3, 3))
                w = float(rng.uniform(.5, 3))
                o.remap(ax, s, s + w)
    elif k == 'lifted':
        a, b = lifted(c, dim, ax, nf)
        if b is None:
            return c.ev('join:not-lifted')
    else:
        # unrelated objects, the second one's end replaced by the first one's
        a, b = family(c, dim, 2, nfields=nf, ends='clamped')
        a, b = work.NURBS(a.knots, a.array[..., :4], fields=fields(a)), work.NURBS(b.knots, b.array[..., :4], fields=fields(b))
        a, b = work.cad.compat(a, b, axes=[i for i in range(dim) if i != ax])
        B = np.moveaxis(b.array.copy(), ax, 0)
        A = np.moveaxis(a.array, ax, 0)
        B[0] = A[-1]
        b = work.make(b.knots, np.moveaxis(B, 0, ax))
    if rng.random() < .2:
        # free ends away from the joint
        for o, s in ((a, 0), (b, 1)):
            if rng.random() < .6 and periodic_ok(o, ax):
                o.unclamp(ax, side=s)
    u = a.knots[ax][-a.degree[ax] - 1]
    x, y = (b.knots[ax][i] for i in (b.degree[ax], -b.degree[ax] - 1))
    r = rng.random()
    if y - x < 1e-8 * abs(u):       # would vanish in rounding when moved there
        s = float(rng.uniform(-1, 1))
        b.remap(ax, s, s + max(abs(u), 1.) * float(rng.uniform(.1, 3)))
    elif r < .1:                    # starts next to where the first ends
        s = float(u + (y - x) * gen.choice(rng, [0, 1e-9, -1e-9, 1e-12, -1e-6]))
        b.remap(ax, s, float(s + (y - x)))
        c.ev('join:adjacent')
    elif r < .2:                    # both short
        w = gen.choice(rng, [1e-7, 1e-9, 1e-10, 1e-13])
        for o in (a, b):
            s = w * float(rng.uniform(-3, 3))
            o.remap(ax, s, s + w * float(rng.uniform(.5, 3)))
        c.ev('join:short')
    c.note(kind=k, axis=ax)
    ret = call(c, 'join', a, b, ax)
    c.ev('join:' + k)
    c.nontrivial(ret.array, *ret.knots)


def lifted(c, dim, ax, nf):
    """Two objects with any end knots; the second is moved as a whole until its
    start is the end of the first."""
    rng = c.rng
    a, b = family(c, dim, 2, nfields=nf, weights=gen.choice(rng, ['none', 'mild']))
    a, b = work.NURBS(a.knots, a.array[..., :4], fields=fields(a)), work.NURBS(b.knots, b.array[..., :4], fields=fields(b))
    a, b = work.cad.compat(a, b, axes=[i for i in range(dim) if i != ax])
    B = b.array.copy()
    B[..., 3] = 1 + (B[..., 3] - B[..., 3].mean()) / B[..., 3].mean() * .2
    A = a.array.copy()
    A[..., 3] = 1 + (A[..., 3] - A[..., 3].mean()) / A[..., 3].mean() * .2
    a, b = work.make(a.knots, A), work.make(b.knots, B)
    D = a.boundary(ax, 1).array - b.boundary(ax, 0).array
    B = B + np.expand_dims(D, ax)
    if B[..., 3].min() < .2 or A[..., 3].min() < .2:
        return a, None
    return a, work.make(b.knots, B)


def fields(n):
    return n.array[..., 4:] / n.array[..., 3:4] if n.array.shape[-1] > 4 else None


def periodic_ok(o, ax):
    """unclamp() of one side borrows knots from the other."""
    return o.shape[ax] >= 2 * o.degree[ax] + 1
