"""Construction and accessors.

The data an object is built from is generated exactly (as rational numbers that
every form of the argument can hold), handed over in every accepted form, and
every accessor is compared with what was given.  The accessors are watched again
after operations with known effect on the control net, on copies, clones, and
objects rebuilt from what the accessors report."""
import pickle, copy as copymod
import numpy as np
from igakit.nurbs import NURBS
from vlib import gen, judge, work
from vlib.case import EPS, L
from . import c11
from vlib.gen import choice
from vlib.ref import Obj


def dress(c, a, base=np.ndarray):
    """The same numbers in another accepted form."""
    rng = c.rng
    a = np.array(a, 'd')
    ks = ['array', 'array', 'list', 'tuple', 'fortran', 'strided', 'negative', 'readonly', 'mixed', 'swapped']
    if np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 31):
        ks += ['int', 'int', 'intlist', 'int32']
        if np.all(np.abs(a) < 100):
            ks += ['int8', 'half']
    if np.all(a.astype('f') == a):
        ks += ['float32', 'float32']
    ks += ['long', 'matrix-of-objects']
    k = choice(rng, ks)
    c.ev('form:' + k)
    if k == 'list':
        return a.tolist()
    if k == 'tuple':
        f = lambda x: tuple(map(f, x)) if isinstance(x, list) else x
        t = f(a.tolist())
        # (control, weights) is what a pair of anything means
        return list(t) if len(t) == 2 else t
    if k == 'fortran':
        return np.asfortranarray(a)
    if k == 'strided':
        return np.repeat(np.repeat(a, 2, axis=0), 3, axis=-1)[::2, ..., ::3] if a.ndim > 1 else np.repeat(a, 2)[::2]
    if k == 'negative':
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 'readonly':
        a.flags.writeable = False
        return a
    if k == 'mixed':        # a list of arrays
        return [x for x in a] if a.ndim > 1 else [np.float64(x) if i % 2 else float(x) for i, x in enumerate(a)]
    if k == 'swapped':      # the other byte order
        return a.astype(a.dtype.newbyteorder())
    if k == 'int':
        return a.astype('q')
    if k == 'int32':
        return a.astype('i')
    if k == 'int8':
        return a.astype('b')
    if k == 'half':
        return a.astype(np.float16)
    if k == 'intlist':
        return a.astype(int).tolist()
    if k == 'float32':
        return a.astype('f')
    if k == 'long':
        return a.astype(L)
    if k == 'matrix-of-objects':
        return a.astype(object)
    return a


def numbers(c, shape, kind):
    rng = c.rng
    if kind == 'int':
        return rng.integers(-50, 51, shape).astype('d')
    if kind == 'binary':
        return rng.integers(-2000, 2000, shape) / 64.0
    if kind == 'big':
        return rng.normal(size=shape) * 10.0 ** rng.integers(-12, 13)
    return rng.normal(size=shape)


def accessors(c, n, knots, A, what):
    """Everything n reports must be the knots and the control data A (exact
    homogeneous coordinates and weighted fields)."""
    dim = len(knots)
    shape = A.shape[:-1]
    c.check(n.dim == dim, what + ': dim', got=n.dim, want=dim)
    c.check(tuple(n.shape) == shape, what + ': shape', got=n.shape, want=shape)
    deg = tuple(len(U) - s - 1 for U, s in zip(knots, shape))
    c.check(tuple(n.degree) == deg, what + ': degree', got=n.degree, want=deg)
    c.check(len(n.knots) == dim, what + ': number of knot vectors')
    for i, U in enumerate(knots):
        c.same(n.knots[i], U, what + ': knots', axis=i)
        c.check(n.knots[i].dtype == np.dtype('d'), what + ': type of the knots', got=n.knots[i].dtype)
    c.near(n.array, A, np.abs(A), what + ': array', K=2)
    c.check(n.array.dtype == np.dtype('d'), what + ': type of the control data', got=n.array.dtype)
    c.near(n.control, A[..., :4], np.abs(A[..., :4]), what + ': control', K=2)
    c.near(n.weights, A[..., 3], np.abs(A[..., 3]), what + ': weights', K=2)
    P = A[..., :3].astype(L) / A[..., 3:4]
    c.near(n.points, P, np.abs(P), what + ': points', K=6)
    if A.shape[-1] == 4:
        c.check(n.fields is None, what + ': fields of an object without fields', got=n.fields)
    else:
        D = A[..., 4:].astype(L) / A[..., 3:4]
        c.check(n.fields is not None, what + ': fields are lost')
        c.near(n.fields, D, np.abs(D), what + ': fields', K=6)
    # what is said about the knots
    f = choice(c.rng, ['breaks', 'breaks', 'spans', 'greville'])
    if f == 'breaks':
        judge.call(c, n, f, mults=True)
    judge.call(c, n, f)
    c.ev('objects-read')
    c.ev('accessors', 10)


def squeezed(c, p, U):
    """U with one span shrunk to a tiny part of the domain."""
    rng = c.rng
    br = np.unique(U)
    a, b = U[p], U[-p - 1]
    k = int(rng.integers(len(br) - 1))
    h = (b - a) * 10.0 ** rng.uniform(-12, -4)
    y = np.concatenate([br[:k + 1], br[k + 1:] - (br[k + 1] - br[k]) + h])
    if np.any(np.diff(y) <= 0) or y[-1] - y[0] < .05 * (br[-1] - br[0]):
        return U
    c.ev('short-spans')
    return y[np.searchsorted(br, U)]


def case(c):
    rng = c.rng
    dim = choice(rng, [1, 1, 2, 2, 3])
    kk = choice(rng, ['any', 'any', 'any', 'int', 'int', 'close'])
    Us, P, w, F, tag = gen.nurbs_data(rng, dim=dim, maxspan={1: 8, 2: 5, 3: 3}[dim])
    if kk == 'int':         # integer knots, in each form that can hold them
        Us = []
        for p in tag['degs']:
            m = rng.integers(1, p + 1, int(rng.integers(0, 4)))
            b = np.cumsum(np.concatenate([[rng.integers(-9, 10)], rng.integers(1, 4, len(m) + 1)]))
            l, r = ((p + 1, p + 1) if rng.random() < .7 else (1, 1))
            U = np.repeat(b, np.concatenate([[l], m, [r]]))
            if l == 1:
                U = np.concatenate([b[0] - np.arange(p, 0, -1), U, b[-1] + np.arange(1, p + 1)])
            Us.append(U.astype('d'))
    if kk == 'close':       # spans that are short compared with the domain
        Us = [squeezed(c, p, U) for p, U in zip(tag['degs'], Us)]
    shape = tuple(len(U) - p - 1 for U, p in zip(Us, tag['degs']))
    nk = choice(rng, ['int', 'binary', 'normal', 'big'])
    sdim = choice(rng, [2, 3, 3, 4, 4])
    P = numbers(c, shape + (sdim,), nk)
    mode = choice(rng, ['none', 'keyword', 'pair'])
    nf = choice(rng, [None, None, 'bare', 1, 2, 3, int(rng.integers(4, 9))])
    if rng.random() < .12:
        mode, sdim, P = 'identity', 0, None
    W = None
    kw, pos = {}, []
    A = np.zeros(shape + (4,), L)
    if mode == 'identity':
        # no control points: the map of every parameter to itself
        Us = [np.concatenate([np.repeat(U[p], p + 1), U[p + 1:-p - 1], np.repeat(U[-p - 1], p + 1)])
              if rng.random() < .8 else np.concatenate([np.repeat(U[p], p + 1), U[p + 1:]])
              for U, p in zip(Us, tag['degs'])]
        control = None
        grev = [np.array([np.sum(U[i + 1:i + p + 1].astype(L)) / p for i in range(s)], L)
                for U, p, s in zip(Us, tag['degs'], shape)]
        for i, g in enumerate(grev):
            A[..., i] = g.reshape([-1 if j == i else 1 for j in range(dim)])
        A[..., 3] = 1
        scaleA = np.abs(A) + sum(np.max(np.abs(U)) for U in Us)
    elif sdim == 4:
        mode = 'none'
        P[..., 3] = choice(rng, [1.0, None]) or np.abs(P[..., 3]) + .5
        if nk == 'int':
            P[..., 3] = rng.integers(1, 9, shape)
        A[...] = P
    else:
        if mode != 'none':
            W = np.abs(numbers(c, shape, nk)) + 1.0
            r = rng.random()
            if r < .25:         # all alike
                W[...] = 1.0 if r < .1 else choice(rng, [.5, 2.0, .25, 3.0, W.flat[0]])
            elif r < .35:       # along one direction only
                i = int(rng.integers(dim))
                W = np.array(np.broadcast_to(W.take([0] * 1, axis=i) if dim > 1 else W, shape))
        A[..., 3] = 1 if W is None else W
        A[..., :sdim] = P.astype(L) * A[..., 3:4]
    if mode != 'identity':
        control = dress(c, P)
    knots = choice(rng, [list, tuple])([dress(c, U) for U in Us])
    if W is not None:
        if mode == 'pair':
            control = (control, dress(c, W))
        else:
            kw['weights'] = dress(c, W)
    if nf is not None:
        D = numbers(c, shape + ((1,) if nf == 'bare' else (nf,)), nk)
        A = np.concatenate([A, D.astype(L) * A[..., 3:4]], -1)
        kw['fields'] = dress(c, D[..., 0] if nf == 'bare' else D)
    # in any way of passing arguments
    k = choice(rng, ['mixed', 'keywords', 'positional'])
    if mode == 'identity' and rng.random() < .5:
        n = NURBS(knots, **kw)
    elif k == 'keywords':
        n = NURBS(knots=knots, control=control, **kw)
    elif k == 'positional':
        n = NURBS(knots, control, kw.get('fields'), kw.get('weights'))
    else:
        n = NURBS(knots, control, **kw)
    c.note(degs=tag['degs'], shape=shape, numbers=nk, components=sdim, weights=mode, fields=nf, passed=k)
    c.ev('built:%dd' % dim)
    c.ev('built:%s-%s' % (sdim, mode))
    c.ev('built:fields-%s' % ('none' if nf is None else 'bare' if nf == 'bare' else 'many'))
    if mode == 'identity':
        # the nodes are rounded: judged by scale, then taken as they are
        S = scaleA if nf is None else np.concatenate([scaleA, np.abs(A[..., 4:]) * 4], -1)
        c.near(n.array, A, S, 'object without control points: control data', K=16)
        Q = np.array(n.array)
        accessors(c, n, Us, np.asarray(Q, L), 'object without control points')
        uvw = [np.array([gen.param(rng, p, U)[0] for _ in range(3)]) for p, U in zip(tag['degs'], Us)]
        V = n(*uvw)
        G = np.zeros([3] * dim + [3])
        for i, u in enumerate(uvw):
            G[..., i] = u.reshape([-1 if j == i else 1 for j in range(dim)])
        s = sum(np.max(np.abs(U)) for U in Us)
        c.near(V, G, np.abs(G) + s, 'object without control points: is not the identity', K=2000)
        c.ev('identity-points', 3 ** dim)
    else:
        accessors(c, n, Us, A, 'new object')
        # nothing of the weights is lost between the array and what was given
        if W is not None:
            c.same(n.weights, W, 'new object: weights are not the ones given')
        if sdim == 4:
            c.same(n.control, P, 'new object: homogeneous control points are not the ones given')
    # fields and weights of another shape are refused, though they may hold as
    # many numbers
    if rng.random() < .4:
        wrong = choice(rng, c11.sheared(shape))
        Q = np.ones(shape + (3,))
        for bad in (lambda: NURBS(Us, Q, fields=np.ones(wrong)), lambda: NURBS(Us, Q, weights=np.ones(wrong)),
                    lambda: NURBS(Us, (Q, np.ones(wrong))), lambda: NURBS(Us, None, np.ones(wrong)),
                    lambda: NURBS(Us, np.ones(shape + (4,)), weights=2 * np.ones(choice(rng, [wrong, shape, shape]))),
                    lambda: NURBS(Us, np.ones(shape + (choice(rng, [1, 5, 6]),)))):
            try:
                m = bad()
            except Exception:
                c.ev('refused-shapes')
            else:
                c.fail('fields or weights of another shape, or beside the weights of homogeneous points, are accepted', shape=shape, given=wrong)
    # copies and clones report the same, bit for bit
    A0 = np.array(n.array)
    for name, m in (('copy', n.copy()), ('clone', n.clone()), ('deepcopy', copymod.deepcopy(n)),
                    ('pickle', pickle.loads(pickle.dumps(n)))):
        c.check(isinstance(m, NURBS), name + ': not a NURBS object')
        accessors(c, m, Us, np.asarray(A0, L), name)
        c.same(m.array, A0, name + ': control data')
        c.ev('copies')
    # rebuilt from what it reports
    m = NURBS(n.knots, n.points, n.fields, n.weights)
    A1 = np.asarray(A0, L)
    c.near(m.array, A1, np.abs(A1), 'rebuilt from points, fields and weights', K=8)
    m = NURBS(n.knots, n.control, n.fields)
    c.near(m.array, A1, np.abs(A1), 'rebuilt from control and fields', K=8)
    # the accessors follow the object through its changes
    m = n.copy()
    knots, B = list(Us), np.array(A0)
    for _ in range(int(rng.integers(1, 5))):
        op = choice(rng, ['transpose', 'reverse', 'boundary', 'array', 'control', 'translate'] +
                    ([] if kk == 'close' else ['insert', 'elevate']))
        if op == 'transpose' and m.dim > 1:
            ax = [int(i) for i in rng.permutation(m.dim)]
            m.transpose(ax)
            B = B.transpose(ax + [m.dim])
            knots = [knots[i] for i in ax]
        elif op == 'reverse':
            i = int(rng.integers(m.dim))
            m.reverse(i)
            B = np.flip(B, i)
            knots[i] = np.array(m.knots[i])     # judged by C08
        elif op == 'array':     # documented to be the object's own storage
            i = tuple(int(rng.integers(s)) for s in m.shape) + (int(rng.integers(3)),)
            m.array[i] = B[i] = float(rng.integers(-9, 9))
        elif op == 'control':
            i = tuple(int(rng.integers(s)) for s in m.shape)
            x = rng.integers(1, 9, 4)
            m.control[i] = x
            B[i][:4] = x
        elif op == 'boundary' and m.dim > 1:
            i = int(rng.integers(m.dim))
            if knots[i][0] != knots[i][m.degree[i]]:
                continue
            m = m.boundary(i, 0)
            B = B.take(0, axis=i)
            del knots[i]
            c.near(m.array, B, np.abs(B), 'boundary: control data', K=2)
            B = np.array(m.array)
        elif op in ('translate', 'insert', 'elevate'):
            if op == 'translate':
                m.translate([1, 2, 3])
            elif op == 'insert':
                i = int(rng.integers(m.dim))
                v = gen.param(rng, m.degree[i], m.knots[i], 'inner')[0]
                m.insert(i, v)
            elif m.array.size < 4000:
                m.elevate(int(rng.integers(m.dim)), 1)
            B = np.array(m.array)               # judged elsewhere
            knots = [np.array(U) for U in m.knots]
        accessors(c, m, knots, np.asarray(B, L), 'after ' + op)
        c.ev('changes')
    c.nontrivial(A0, *Us)
