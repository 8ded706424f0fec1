"""Transposition, swapping, reversal and remapping of axes."""
import numpy as np
from vlib import gen, work
from vlib.judge import call
from vlib.ref import Obj


def target(c, a, b):
    rng = c.rng
    k = gen.choice(rng, ['unit', 'affine', 'shift', 'tenths', 'start', 'end', 'same', 'tiny', 'huge'])
    c.ev('remap:' + k)
    if k == 'unit':
        return 0, 1
    if k == 'affine':
        s = float(rng.uniform(-5, 5))
        return s, s + float(rng.uniform(.1, 9))
    if k == 'shift':
        d = float(rng.integers(-4, 5))
        if b - a < 1e-8 * (abs(a) + abs(d)):    # would vanish in rounding
            d = (b - a) * d
        return a + d, b + d
    if k == 'tenths':
        s = int(rng.integers(-20, 20))
        return s * .1, (s + int(rng.integers(1, 20))) * .1
    if k == 'start':
        return None, b + abs(b - a) * float(rng.uniform(.1, 3))
    if k == 'end':
        return a - abs(b - a) * float(rng.uniform(.1, 3)), None
    if k == 'same':
        return a, b
    if k == 'tiny':
        return 0.0, 1e-6
    return -1e6, 2e6


def case(c):
    rng = c.rng
    nrb = work.obj(c)
    log = []
    for _ in range(int(rng.integers(1, 5))):
        op = gen.choice(rng, ['transpose', 'swap', 'reverse', 'reverse', 'remap', 'remap'])
        if op == 'transpose':
            if rng.random() < .3:
                args = ()
            else:
                perm = [int(i) for i in rng.permutation(nrb.dim)]
                args = (gen.choice(rng, [list, tuple, np.array])(perm),)
        elif op == 'swap':
            args = (work.axis(c, nrb), work.axis(c, nrb))
        elif op == 'reverse':
            k = int(rng.integers(0, nrb.dim + 1))
            axes = [int(i) for i in rng.permutation(nrb.dim)[:k]]
            args = tuple(i - nrb.dim if rng.random() < .2 else i for i in axes)
            if rng.random() < .1:
                args = args + args[:1]
        else:
            ax = work.axis(c, nrb)
            p, U = nrb.degree[ax], nrb.knots[ax]
            args = (ax,) + target(c, float(U[p]), float(U[-p - 1]))
        log.append((op,) + args)
        c.note(steps=log)
        call(c, nrb, op, *args)
    if rng.random() < .4:       # reversing twice gives the object back
        pre = Obj.of(nrb)
        ax = [work.axis(c, nrb)]
        nrb.reverse(*ax).reverse(*ax)
        post = Obj.of(nrb)
        c.same(post.array, pre.array, 'reverse twice: control data')
        for i in range(pre.dim):
            c.check(post.domain(i) == pre.domain(i), 'reverse twice: domain')
            c.near(post.knots[i], pre.knots[i], np.max(np.abs(pre.knots[i])) * 3 + 0 * pre.knots[i],
                   'reverse twice: knots', K=8)
        c.ev('reverse-twice')
    o = Obj.of(nrb)
    c.nontrivial(o.array, *o.knots)
