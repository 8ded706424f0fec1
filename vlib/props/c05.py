"""Knot removal."""
import numpy as np
from vlib import gen, work
from vlib.judge import call, same_map
from vlib.ref import Obj, EPS


def interior(rng, p, U):
    a, b = U[p], U[-p - 1]
    v = np.unique(U[(U > a) & (U < b)])
    return float(gen.choice(rng, v)) if len(v) else None


def finding(c):
    """Known finding C05-DEV: a deviation far larger than a rational object."""
    nrb = work.NURBS([[0, 0, 0, 0, .5, 1, 1, 1, 1]], [[-2, 4], [2, 3], [0, -2], [2, -2], [2, 1]], weights=[.7, .7, .6, .5, 2.9])
    call(c, nrb, 'remove', 0, .5, 1, 20.0)


def case(c):
    rng = c.rng
    if c.idx == 0:
        finding(c)
    nrb = work.obj(c)
    pre = Obj.of(nrb)
    mode = gen.choice(rng, ['insert', 'insert', 'refuse', 'deform', 'deform', 'nothing'])
    ax = work.axis(c, nrb)
    axp = range(nrb.dim)[ax]
    p, U = nrb.degree[ax], nrb.knots[ax]
    c.ev('mode:' + mode)
    c.note(mode=mode, axis=ax)
    if mode == 'insert':
        # an inserted knot comes off again and the original object is back
        for _ in range(20):
            v, kind = gen.param(rng, p, U, gen.choice(rng, ['inner', 'inner', 'knot']))
            m = p - int(np.sum(U == v))
            if m > 0 and U[p] < v < U[-p - 1]:
                break
        else:
            m = 0
        if not m:
            return
        t = int(rng.integers(1, m + 1))
        work_on_others(c, nrb, axp)
        pre = Obj.of(nrb)
        nrb.insert(ax, v, t)
        # the deviation must be above the rounding error of the control data
        dev = max(1e-9, 1e7 * EPS * float(np.max(np.abs(pre.array)) * (1 + pre.scale() * 2) /
                                          np.min(pre.array[..., 3])))
        if dev == 1e-9:
            c.ev('insert-remove:default-deviation')
        c.note(value=v, times=t, deviation=dev)
        a = () if dev == 1e-9 else (dev,)
        if rng.random() < .5:
            call(c, nrb, 'remove', ax, v, t, *a)
        else:
            for _ in range(t):
                call(c, nrb, 'remove', ax, v, 1, *a)
        post = Obj.of(nrb)
        if p > 5:      # too ill-conditioned to insist
            return c.ev('insert-remove:high-degree')
        if post.shape != pre.shape:
            c.fail('a knot that was just inserted was not removed again', value=v, times=t,
                   removed=t - (post.shape[axp] - pre.shape[axp]))
        for x, y in zip(post.knots, pre.knots):
            c.same(x, y, 'insert+remove: knots')
        H = np.max(np.abs(pre.array), axis=tuple(range(pre.dim)))
        c.near(post.array, pre.array, H + 0 * pre.array, 'insert+remove: control data', K=1e7)
        c.ev('insert-remove')
    elif mode == 'refuse':
        # removing what cannot be removed leaves the object as it is
        v = interior(rng, p, U)
        if v is None:
            return
        call(c, nrb, 'remove', ax, v, gen.choice(rng, [1, None, p, p + 3]), 0.0)
        c.note(value=v)
    elif mode == 'deform':
        v = interior(rng, p, U)
        if v is None:
            return
        if nrb.array.shape[-1] > 4 and rng.random() < .3:
            # fields and points of very different sizes
            A = nrb.array.copy()
            if rng.random() < .7:
                A[..., :3] *= 10.0 ** rng.uniform(-4, 0)
                A[..., 4:] *= 10.0 ** rng.uniform(0, 4)
            else:
                A[..., :3] *= 10.0 ** rng.uniform(0, 4)
                A[..., 4:] *= 10.0 ** rng.uniform(-4, 0)
            nrb = work.make(nrb.knots, A)
            pre = Obj.of(nrb)
            c.ev('sizes-apart')
        far = 1
        s = pre.scale()
        dev = float(s * 10.0 ** rng.uniform(-12, 3))
        if nrb.array.shape[-1] > 4 and rng.random() < .25:
            # large fields on a small rational object: what counts is how
            # much the weights change
            A = nrb.array.copy()
            A[..., 3] = 1 + rng.uniform(-1, 1, A.shape[:-1]) * 10.0 ** rng.uniform(-4, -.1)
            A[..., :3] = rng.normal(size=A.shape[:-1] + (3,)) * 10.0 ** rng.uniform(-3, 1) * A[..., 3:4]
            f = 10.0 ** rng.uniform(0, 4)
            A[..., 4:] = f * (1 + 10.0 ** rng.uniform(-6, 0) * rng.normal(size=A[..., 4:].shape)) * A[..., 3:4]
            nrb = work.make(nrb.knots, A)
            pre = Obj.of(nrb)
            dev = float(f * 10.0 ** rng.uniform(-4, -.5))
            c.ev('large-fields')
        elif rng.random() < .25:
            # weights that fall along the axis: what is little at one end of it
            # is much at the other
            A = nrb.array.copy()
            w = 10.0 ** (-rng.uniform(0, 4) * np.linspace(0, 1, A.shape[axp]) ** rng.uniform(.3, 3))
            w = w if rng.random() < .5 else w[::-1]
            A *= w.reshape((-1,) + (1,) * (A.ndim - 1 - axp))
            nrb = work.make(nrb.knots, A)
            pre = Obj.of(nrb)
            dev = float(pre.scale() * 10.0 ** rng.uniform(-6, -1))
            c.ev('falling-weights')
            far = 3
        if rng.random() < (.9 if far > 1 else .4):      # nearly removable: the decision is near the bound
            new = v if rng.random() < .3 and np.sum(U == v) < p else gen.param(rng, p, U, 'inner')[0]
            nrb.insert(ax, new)
            A = nrb.array.copy()
            # perturb everything, or only some coordinate or field
            which = [i for i in range(A.shape[-1]) if i != 3]
            if rng.random() < .3:
                # the weights alone: the homogeneous coordinates stay removable
                room = min(dev / (1 + Obj.of(nrb).scale()), .03)
                A[..., 3] += rng.uniform(-1, 1, A.shape[:-1]) * np.min(A[..., 3]) * room * 10.0 ** rng.uniform(-1, 1)
                which = []
            elif rng.random() < .6:
                which = [which[-1]] if rng.random() < .5 else [gen.choice(rng, which)]
            for i in which:
                A[..., i] += rng.normal(size=A.shape[:-1]) * dev * 10.0 ** rng.uniform(-2, far) * A[..., 3]
            c.ev('perturbed:' + ('weights' if not which else 'all' if len(which) > 1 else 'field' if which[0] > 3 else 'coordinate'))
            nrb = work.make(nrb.knots, A)
            v = interior(rng, nrb.degree[ax], nrb.knots[ax])
            if rng.random() < (.9 if far > 1 else .3) and U[p] < new < U[-p - 1]:
                v = float(new)
        t = gen.choice(rng, [1, 1, 2, None, p])
        c.note(value=v, times=t, deviation=dev)
        call(c, nrb, 'remove', ax, v, t, dev)
    else:
        k = gen.choice(rng, ['absent', 'end', 'zero', 'neighbour'])
        if k == 'absent':
            v = gen.param(rng, p, U, 'inner')[0]
            call(c, nrb, 'remove', ax, v, 1, 1e300)
        elif k == 'end':
            call(c, nrb, 'remove', ax, float(U[p] if rng.random() < .5 else U[-p - 1]), 1, 1e300)
        elif k == 'zero':
            v = interior(rng, p, U)
            if v is not None:
                call(c, nrb, 'remove', ax, v, 0, 1e300)
        else:
            v = interior(rng, p, U)
            if v is not None:
                v = float(np.nextafter(v, gen.choice(rng, [-np.inf, np.inf])))
                if U[p] < v < U[-p - 1]:
                    call(c, nrb, 'remove', ax, v, 1, 1e300)
        c.ev('nothing:' + k)
    o = Obj.of(nrb)
    c.nontrivial(mode, o.array, *o.knots)


def work_on_others(c, nrb, ax):
    """Elevate or refine other axes first, so that strides differ."""
    for i in range(nrb.dim):
        if i != ax and c.rng.random() < .3:
            nrb.elevate(i)
