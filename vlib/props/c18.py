"""Coons patches."""
import numpy as np
from vlib import gen, work
from vlib.cadjudge import call
from vlib.ref import Obj


def curve(c, dom, Pa, Pb, straight=False):
    """A clamped-or-not curve from homogeneous point Pa to Pb."""
    rng = c.rng
    if straight:
        return work.NURBS([[dom[0]] * 2 + [dom[1]] * 2], np.stack([Pa, Pb]))
    n = work.obj(c, dim=1, ends='clamped', weights=gen.choice(rng, ['mild', 'mild', 'none']), nfields=0,
                 maxdeg=5, maxspan=4)
    n.remap(0, *dom)
    A = n.array.copy()
    A[:, :3] *= max(1e-3, np.max(np.abs(Pa[:3] / Pa[3]))) / max(1e-9, np.max(np.abs(A[:, :3])))
    A *= (Pa[3] + Pb[3]) / 2
    A[0], A[-1] = Pa, Pb
    n = work.NURBS(n.knots, A)
    r = rng.random()
    p = n.degree[0]
    if r < .15 and p > 1:
        n.elevate(0, 1)
    elif r < .3 and n.shape[0] >= 2 * p + 1:
        m = n.copy().unclamp(0, side=gen.choice(rng, [None, 0, 1]))
        # far extrapolation leaves ends that agree to few digits only
        if np.max(np.abs(m.array)) < 4 * np.max(np.abs(A)) and np.min(m.weights) > .2 * np.min(n.weights):
            n = m
            c.ev('unclamped-curves')
    return n


def pair(c, a, Pa, Pb):
    """The curve (clamped again), and another on its knots from Pa to Pb, both
    unclamped alike, if they can be."""
    rng = c.rng
    a = a.copy().clamp(0)
    A = a.array.copy()
    A[1:-1] *= rng.uniform(.8, 1.25, (len(A) - 2, 1))
    A[0], A[-1] = Pa, Pb
    b = work.NURBS([a.knots[0].copy()], A)
    if a.shape[0] >= 2 * a.degree[0] + 1 or rng.random() < .5:
        s = gen.choice(rng, [None, None, 0, 1])
        m = [x.copy().unclamp(0, side=s) for x in (a, b)]
        if all(np.max(np.abs(x.array)) < 4 * np.max(np.abs(y.array)) and
               np.min(x.weights) > .2 * np.min(y.weights) for x, y in zip(m, (a, b))):
            c.ev('opposite-unclamped-alike')
            return m
    return a, b


def close(a, b):
    """Have the two curves breaks that differ, and almost agree?"""
    x, y = a.breaks(0), b.breaks(0)
    if x[0] == y[0] and x[-1] == y[-1]:
        d = np.abs(x[:, None] - y) / (x[-1] - x[0])
        return bool(np.any((d > 0) & (d < 1e-9)))
    x, y = [((v - v[0]) / (v[-1] - v[0]))[1:-1] for v in (x, y)]
    return bool(np.any(np.abs(x[:, None] - y) < 1e-9))


def case(c):
    rng = c.rng
    scale = gen.choice(rng, [1.0, 1.0, 100.0, 1e-2, 1e4])
    P = rng.normal(size=(2, 2, 3)) * scale
    if rng.random() < .3:
        P[..., 2] = 0
    wm = gen.choice(rng, ['one', 'one', 'same', 'any', 'any'])
    W = np.ones((2, 2, 1))
    if wm == 'same':
        W *= rng.uniform(.3, 3)
    elif wm == 'any':
        W = rng.uniform(.5, 2, (2, 2, 1))
    H = np.concatenate([P * W, W], -1)
    doms = [(0., 1.), (0., 1.)]
    for i in range(2):
        if rng.random() < .35:
            a = float(rng.uniform(-3, 3))
            doms[i] = (a, a + float(rng.uniform(.3, 4)))
    st = rng.random() < .15
    d0, d1 = list(doms), list(doms)
    for i in range(2):
        if rng.random() < .2:          # opposite curves over different domains
            a = gen.choice(rng, [doms[i][0], 0., float(rng.uniform(-3, 3))])
            d1[i] = (a, a + gen.choice(rng, [2., doms[i][1] - doms[i][0], float(rng.uniform(.3, 4))]))
    C00 = curve(c, d0[0], H[0, 0], H[0, 1], st)
    C01 = curve(c, d1[0], H[1, 0], H[1, 1], st)
    C10 = curve(c, d0[1], H[0, 0], H[1, 0], st)
    C11 = curve(c, d1[1], H[0, 1], H[1, 1], st)
    if not st and rng.random() < .3:   # opposite curves on the same knots
        if rng.random() < .5 and d0[1] == d1[1]:
            C10, C11 = pair(c, C10, H[0, 1], H[1, 1])
        elif d0[0] == d1[0]:
            C00, C01 = pair(c, C00, H[1, 0], H[1, 1])
    if close(C00, C01) or close(C10, C11):
        c.ev('breaks-too-close')        # a change of domain may merge them
        return
    k = gen.choice(rng, ['lists', 'tuples', 'mixed'])
    cs = {'lists': [[C00, C01], [C10, C11]], 'tuples': ((C00, C01), (C10, C11)),
          'mixed': [(C00, C01), [C10, C11]]}[k]
    c.note(weights=wm, scale=scale, domains=doms, straight=st)
    r = rng.random()
    if r < .25:
        # one corner off: must be refused
        i, j, k = rng.integers(2, size=3)
        X = [[C00, C01], [C10, C11]][i][j]
        A = X.array.copy()
        e = -1 if k else 0
        off = np.zeros(4)
        off[int(rng.integers(3))] = np.max(np.abs(P)) * 10 ** rng.uniform(-9, 0) * A[e, 3]
        A[e] += off
        bad = work.NURBS(X.knots, A)
        # how far the end itself moves (less than A[e], on unclamped curves)
        U, q = X.knots[0], X.degree[0]
        end = [np.array([U[-q - 1] if k else U[q]])]
        moved = np.max(np.abs(Obj.of(bad).eval(end)[0] - Obj.of(X).eval(end)[0]))
        M = [[C00, C01], [C10, C11]]
        M[i][j] = bad
        try:
            work.cad.coons(M)
        except AssertionError:
            c.ev('coons:refused')
        else:
            if moved < 1e-11 * max(1.0, np.max(np.abs(P))):
                c.ev('coons:hardly-moved')
                return
            c.fail('coons accepted curves whose corners differ', off=off, corner=(int(i), int(j), int(k)))
    ret = call(c, 'coons', cs)
    c.nontrivial(ret.array, *ret.knots)
