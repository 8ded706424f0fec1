"""Geometric transforms."""
import numpy as np
from vlib import gen, work
from vlib.judge import call, m_translate, m_scale, m_rotate
from vlib.ref import Obj, L
from igakit.transform import transform


def vec(rng, n=None, lo=-3, hi=3):
    n = n or int(rng.integers(1, 4))
    v = rng.uniform(lo, hi, n)
    k = gen.choice(rng, ['array', 'list', 'tuple', 'readonly'])
    if k == 'list':
        return v.tolist()
    if k == 'tuple':
        return tuple(v.tolist())
    if k == 'readonly':
        v.flags.writeable = False
    return v


def angle(rng):
    k = gen.choice(rng, ['any', 'any', 'quarter', 'zero', 'tiny', 'many', 'degrees', 'turns', 'int'])
    if k == 'degrees':      # means nothing special in radians
        return gen.choice(rng, [int, float])(gen.choice(rng, [30, 45, 60, 90, 180, 270, 360, 720]) * gen.choice(rng, [-1, 1]))
    if k == 'turns':
        return 2 * np.pi * int(rng.integers(-5, 6)) + gen.choice(rng, [0., 1e-9, -1e-9, .5])
    if k == 'int':
        return int(rng.integers(-10, 11))
    return {'any': float(rng.uniform(-7, 7)), 'quarter': float(rng.integers(-4, 5)) * np.pi / 2,
            'zero': 0.0, 'tiny': float(10 ** rng.uniform(-12, -2)), 'many': float(rng.uniform(-60, 60))}[k]


def direction(rng):
    k = gen.choice(rng, ['int', 'int', 'vec', 'vec', 'vec2', 'vec1', 'coord', 'near', 'long', 'short'])
    if k == 'int':
        return int(rng.integers(-3, 3))
    if k == 'vec':
        return vec(rng, 3)
    if k == 'vec2':
        return vec(rng, 2)
    if k == 'vec1':
        return (float(gen.choice(rng, [-2.0, .5, 1.0])),)
    if k == 'coord':
        v = [0, 0, 0]
        v[int(rng.integers(3))] = int(gen.choice(rng, [-1, 1, 3]))
        return v
    if k == 'near':
        v = rng.normal(size=3) * 10.0 ** rng.uniform(-9, -3)
        v[int(rng.integers(3))] = gen.choice(rng, [-1., 1.])
        return v
    return np.asarray(rng.normal(size=3) * (1e6 if k == 'long' else 1e-6))


def step(rng):
    """(name, args, kwargs, matrix)"""
    op = gen.choice(rng, ['translate', 'move', 'scale', 'rotate', 'rotate'])
    if op in ('translate', 'move'):
        if rng.random() < .5:
            a = vec(rng)
            return op, (a,), {}, m_translate(a)
        d = float(rng.uniform(-4, 4))
        if rng.random() < .3:
            return op, (d,), {}, m_translate(d)
        ax = int(rng.integers(-3, 3))
        if rng.random() < .3:
            return op, (d,), dict(axis=ax), m_translate(d, ax)
        return op, (d, ax), {}, m_translate(d, ax)
    if op == 'scale':
        if rng.random() < .2:       # close to nothing at all
            d = 1 + float(10 ** rng.uniform(-14, -2)) * gen.choice(rng, [-1, 1])
            a = gen.choice(rng, [d, [d, 1.0], [1.0, d, d]])
            return op, (a,), {}, m_scale(a)
        if rng.random() < .5:
            a = vec(rng, None, .2, 3)
            if rng.random() < .3:
                a = -np.asarray(a)
            return op, (a,), {}, m_scale(a)
        d = float(gen.choice(rng, [-1., .5, 2., 1.])) * float(rng.uniform(.5, 2))
        if rng.random() < .4:
            return op, (d,), {}, m_scale(d)
        ax = int(rng.integers(-3, 3))
        return op, (d, ax), {}, m_scale(d, ax)
    a, d = angle(rng), direction(rng)
    if rng.random() < .3:
        return op, (a,), {}, m_rotate(a)
    return op, (a, d), {}, m_rotate(a, d)


def case(c):
    rng = c.rng
    nrb = work.obj(c)
    pre0 = Obj.of(nrb)
    log = []
    # single steps on the object
    for _ in range(int(rng.integers(1, 4))):
        op, a, kw, M = step(rng)
        log.append((op, a, kw))
        c.note(steps=log)
        call(c, nrb, op, *a, **kw)
    # a program of steps composed in a transform, in order
    T = transform()
    M = np.eye(4, dtype=L)
    mag = np.eye(4, dtype=L)
    prog = []
    for _ in range(int(rng.integers(1, 5))):
        k = rng.random()
        if k < .2:
            A = rng.normal(size=(3, 3))
            X = np.eye(4)
            X[:3, :3] = A
            arg = A.tolist() if rng.random() < .3 else A
        elif k < .4:
            X = np.eye(4)
            if rng.random() < .5:
                X[:3] = rng.normal(size=(3, 4))
            else:                   # almost the identity
                X[:3] += rng.normal(size=(3, 4)) * 10 ** rng.uniform(-12, -2)
            arg = X.copy() if rng.random() < .5 else transform(X)
        else:
            arg = None
        if arg is not None:
            r = T.compose(arg)
            prog.append(('compose', X))
        else:
            op, a, kw, X = step(rng)
            r = getattr(T, op)(*a, **kw)
            prog.append((op, a, kw))
        c.note(program=prog)
        c.check(r is T, 'a transform step did not return the transform')
        B = np.abs(X) if arg is not None or op != 'rotate' else rbound(X)
        M = np.asarray(X, L) @ M
        mag = np.asarray(B, L) @ mag
        c.near(T.matrix, M, mag + 1e-300, 'transform matrix after %s' % prog[-1][0], K=64)
        c.ev('transform-steps')
    if rng.random() < .3:
        # every way to hand over and copy a transform
        for X in (transform(T), transform(T.matrix), transform(T.matrix.tolist()), T.copy(), T.clone()):
            c.same(X.matrix, T.matrix, 'copied transform')
        c.same(np.array(T), T.matrix, 'transform as array')
        c.ev('transform-copies')
    # points, homogeneous points, and objects transform alike
    P = rng.normal(size=(int(rng.integers(1, 4)), 5, 4)) if rng.random() < .5 else rng.normal(size=4)
    c.near(T(P), np.asarray(P, L) @ np.asarray(T.matrix, L).T,
           np.abs(P).astype(L) @ np.abs(np.asarray(T.matrix, L)).T, 'transform of points', K=16)
    arg = T if rng.random() < .5 else (T.matrix if rng.random() < .5 else T.matrix.tolist())
    call(c, nrb, 'transform', arg)
    # the inverse undoes
    Tm = T.matrix.copy()
    cond = np.linalg.cond(Tm)
    if cond < 1e8:
        I = T.inverse()
        c.same(T.matrix, Tm, 'inverse() changed the transform')
        J = T.copy()
        c.check(J.invert() is J, 'invert() did not return the transform')
        c.near(J.matrix, I.matrix, cond * np.abs(I.matrix).max() + np.zeros((4, 4)), 'invert and inverse differ', K=1e3)
        c.near(np.asarray(I.matrix, L) @ Tm, np.eye(4), cond + np.zeros((4, 4)),
               'inverse times transform', K=1e3)
        q = nrb.copy().transform(I).transform(T)
        s = np.abs(nrb.array) + np.max(np.abs(nrb.array[..., :4])) * cond * np.abs(Tm).max() * \
            (1 + np.abs(I.matrix).max())
        c.near(q.array, nrb.array, s, 'transform after its inverse', K=1e3)
        c.ev('inverses')
    # inverses of any matrix, projective ones too
    X = np.eye(4) + rng.normal(size=(4, 4)) * 10 ** rng.uniform(-9, 1)
    if gen.choice(rng, [0, 1]):
        X[3, :3] = 0
    cond = np.linalg.cond(X)
    if cond < 1e6:
        t = transform(X)
        c.near(np.asarray(t.inverse()(t(P)), L), np.asarray(P, L),
               cond * (np.max(np.abs(P)) + 0 * np.abs(P)) * 4, 'inverse of a general matrix on points', K=1e3)
        c.same(t.matrix, X, 'inverse() changed the transform')
        c.ev('general-inverses')
    # programs with projective steps, on the matrix and on homogeneous points
    T = transform()
    M = np.eye(4, dtype=L)
    mag = np.eye(4, dtype=L)
    prog = []
    for _ in range(int(rng.integers(2, 5))):
        if rng.random() < .6:
            X = np.eye(4) if rng.random() < .5 else rng.normal(size=(4, 4))
            X[3] = rng.normal(size=4) * gen.choice(rng, [1, 1e-3])
            B = np.abs(X)
            T.compose(X.copy() if rng.random() < .5 else transform(X))
            prog.append('projective')
        else:
            op, a, kw, X = step(rng)
            getattr(T, op)(*a, **kw)
            B = rbound(X) if op == 'rotate' else np.abs(X)
            prog.append(op)
        M = np.asarray(X, L) @ M
        mag = np.asarray(B, L) @ mag
        c.near(T.matrix, M, mag + 1e-300, 'transform matrix of a projective program %s' % prog, K=64)
    H = rng.normal(size=(3, 4))
    c.near(T(H), np.asarray(H, L) @ np.asarray(T.matrix, L).T,
           np.abs(H).astype(L) @ np.abs(np.asarray(T.matrix, L)).T, 'projective transform of points', K=16)
    c.ev('projective-programs')
    c.nontrivial(pre0.array, repr(prog), repr(log))


def rbound(X):
    B = np.eye(4)
    B[:3, :3] = 1
    return B
