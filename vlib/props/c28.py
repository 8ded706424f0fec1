"""Equivalent ways of stating a request give the same result.

Each execution states one request in several ways that mean the same (another
container, number type, memory layout or sign of an axis; positional, keyword
and default arguments; a scalar for repeated values; one call for several; a
name and its synonym) on copies of one object, and compares all results."""
import functools, os
import numpy as np
from igakit import cad, io
from igakit.nurbs import NURBS
from igakit.plot import Plotter
from igakit.transform import transform
from vlib import gen, work
from vlib.gen import choice
from .c25 import Rec
from .c27 import flat, alike, brief


# ---------------------------------------------------------------- forms

def ax_(c, a, dim):
    """The same axis."""
    return choice(c.rng, [int, int, np.int64, np.int32, np.intp, lambda x: int(x) - dim, lambda x: np.int64(x - dim)])(a)


def num(c, x):
    """The same number."""
    x = float(x)
    k = [float, float, np.float64, np.asarray]
    if x == int(x) and abs(x) < 2 ** 31:
        k += [int, np.int64, np.int32]
    if float(np.float32(x)) == x:
        k += [np.float32]
    return choice(c.rng, k)(x)


def short(rng, n):
    """Numbers that single precision can hold."""
    return (rng.normal(size=n) * 10.0 ** rng.uniform(-2, 2, n)).astype('f').astype('d')


def cnt(c, n):
    return choice(c.rng, [int, int, np.int64, np.int32])(n)


def arr(c, a):
    """The same numbers."""
    rng = c.rng
    a = np.array(a, 'd')
    ks = ['array', 'list', 'tuple', 'strided', 'negative', 'readonly', 'fortran', 'items']
    if a.size and np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 31):
        ks += ['int', 'intlist', 'int32']
    if np.all(a.astype('f') == a):
        ks += ['float32']
    k = choice(rng, ks)
    c.ev('form:' + k)
    if k == 'list':
        return a.tolist()
    if k == 'tuple':
        f = lambda x: tuple(map(f, x)) if isinstance(x, list) else x
        return f(a.tolist())
    if k == 'strided':
        return np.repeat(a, 3, axis=0)[1::3] if a.ndim else a
    if k == 'negative':
        return a[::-1].copy()[::-1] if a.ndim else a
    if k == 'readonly':
        a.flags.writeable = False
        return a
    if k == 'fortran':
        return np.asfortranarray(a)
    if k == 'items':
        return [x for x in a] if a.ndim else a
    if k == 'int':
        return a.astype('q')
    if k == 'int32':
        return a.astype('i')
    if k == 'intlist':
        return a.astype('q').tolist()
    if k == 'float32':
        return a.astype('f')
    return a


def same(c, what, *ways):
    """All thunks give the same (values up to rounding in the last places)."""
    first = None
    for i, w in enumerate(ways):
        try:
            r = flat(w())
        except Exception as e:
            r = ['raised', '%s: %s' % (type(e).__name__, str(e)[:100])]
        if i == 0:
            first = r
            if isinstance(r, list) and r[:1] == ['raised']:
                # the reference statement itself has to be accepted
                c.fail(what + ': refused', error=r[1])
        else:
            c.check(alike(first, r), what + ': another way of saying the same gives something else', way=i, got=brief(r),
                    want=brief(first))
            c.ev('pairs')
    c.ev('request:' + what.split(':')[0])
    return first


def simple(c, o):
    """The domains become whole numbers, so that parameters have more forms."""
    for i in range(o.dim):
        s = int(c.rng.integers(-3, 3))
        o.remap(i, s, s + int(c.rng.integers(1, 5)) * 4)
    return o


def value(c, o, ax, kind=None):
    p, U = o.degree[ax], o.knots[ax]
    v = gen.param(c.rng, p, U, kind)[0]
    r = float(np.round(v * 4) / 4)
    if kind in (None, 'inner') and U[p] < r < U[-p - 1] and c.rng.random() < .7:
        v = r
    return v


# ---------------------------------------------------------------- requests

def queries(c, o):
    rng = c.rng
    dim = o.dim
    X = [np.array([value(c, o, i) for _ in range(int(rng.integers(1, 4)))]) for i in range(dim)]
    f = lambda: [arr(c, x) for x in X]
    kw = lambda: dict(zip('uvw', f()))
    k = choice(rng, ['call', 'call', 'scalar', 'mixed', 'default', 'fields', 'gradient', 'hessian', 'derivative', 'given', 'mapped',
                     'per-axis', 'accessors'])
    if k == 'call':
        same(c, 'evaluation', lambda: o(*X), lambda: o(*f()), lambda: o(**kw()), lambda: o(*f(), fields=False),
             lambda: o(**kw()), lambda: o(*f()))
    elif k == 'scalar':
        x = [float(u[0]) for u in X]
        same(c, 'evaluation: scalar', lambda: o(*x), lambda: o(*[num(c, u) for u in x]),
             lambda: o(*[[num(c, u)] for u in x])[(0,) * dim], lambda: o(**dict(zip('uvw', [num(c, u) for u in x]))),
             lambda: o(*X)[(0,) * dim])
        if o.fields is not None:
            same(c, 'evaluate: scalar', lambda: o.evaluate(None, *x), lambda: o.evaluate(None, *[[u] for u in x])[(0,) * dim])
    elif k == 'mixed':
        i = int(rng.integers(dim))
        Y, Z = list(X), list(X)
        Y[i] = float(X[i][0])
        Z[i] = X[i][:1]
        same(c, 'evaluation: one scalar', lambda: o(*Y), lambda: o(*Z).take(0, axis=i))
        same(c, 'gradient: one scalar', lambda: o.gradient(None, *Y), lambda: o.gradient(None, *Z).take(0, axis=i))
    elif k == 'default':
        i = int(rng.integers(dim))
        for j in range(dim):        # only then the nodes are in the domain
            o.clamp(j)
        X = [np.array([value(c, o, i) for _ in range(int(rng.integers(1, 4)))]) for i in range(dim)]
        G = [np.clip(o.greville(j), *[o.knots[j][x] for x in (0, -1)]) for j in range(dim)]
        Y = list(X)
        Y[i] = None
        Z = list(X)
        Z[i] = G[i]
        same(c, 'evaluation: default points', lambda: o(*Z), lambda: o(*Y),
             lambda: o(**{'uvw'[j]: X[j] for j in range(dim) if j != i}))
        same(c, 'evaluation: all default', lambda: o(*G), lambda: o(), lambda: o(*[None] * dim))
        same(c, 'gradient: default points', lambda: o.gradient(None, *Z), lambda: o.gradient(None, *Y), lambda: o.gradient(
            **{'uvw'[j]: X[j] for j in range(dim) if j != i}))
        same(c, 'derivative: default points', lambda: o.derivative(2, None, *Z), lambda: o.derivative(2, None, *Y))
    elif k == 'fields':
        if o.fields is not None:
            F = np.array(o.fields)
            E = lambda: o(*X, fields=True)
            same(c, 'fields', lambda: E()[1], lambda: o.evaluate(None, *f()), lambda: o.evaluate(**kw()), lambda: o.evaluate(F, *X),
                 lambda: o(*f(), fields=F)[1], lambda: o(*f(), fields=arr(c, F))[1])
            same(c, 'fields: points', lambda: o(*X), lambda: E()[0], lambda: o(*X, fields=F)[0])
            same(c, 'fields: derivatives', lambda: o.gradient(F, *X), lambda: o.gradient(None, *X), lambda: o.gradient(*[None] + X),
                 lambda: o.gradient(arr(c, F), *f()))
            same(c, 'fields: second derivatives', lambda: o.hessian(F, *X), lambda: o.hessian(None, *X), lambda: o.hessian(**kw()))
        else:
            P = np.array(o.points)
            same(c, 'derivatives of the map', lambda: o.gradient(P, *X), lambda: o.gradient(None, *X), lambda: o.gradient(**kw()))
            same(c, 'second derivatives of the map', lambda: o.hessian(P, *X), lambda: o.hessian(None, *X))
            # the points are the fields called x, y, z
            same(c, 'points as fields', lambda: o(*X), lambda: o.evaluate(P, *X), lambda: o(*X, fields=P)[1])
    elif k == 'given':
        n = int(rng.integers(1, 4))
        F = rng.integers(-9, 9, o.shape + (n,)) / choice(rng, [1.0, 4.0, 3.0])
        g = lambda: arr(c, F)
        same(c, 'given fields', lambda: o.evaluate(F, *X), lambda: o.evaluate(g(), *f()), lambda: o.evaluate(fields=g(), **kw()),
             lambda: o(*X, fields=g())[1], lambda: np.concatenate([o.evaluate(F[..., i:i + 1], *X) for i in range(n)], -1),
             lambda: np.stack([o.evaluate(arr(c, F[..., i]), *X) for i in range(n)], -1))
        same(c, 'given fields: gradient', lambda: o.gradient(F, *X), lambda: o.gradient(g(), *f()), lambda: o.gradient(fields=g(), **kw()),
             lambda: np.stack([o.gradient(arr(c, F[..., i]), *X) for i in range(n)], -2))
        same(c, 'given fields: hessian', lambda: o.hessian(F, *X), lambda: o.hessian(g(), *f()),
             lambda: np.stack([o.hessian(arr(c, F[..., i]), *X) for i in range(n)], -3))
        r = int(rng.integers(1, 5))
        same(c, 'given fields: derivative', lambda: o.derivative(r, F, *X), lambda: o.derivative(cnt(c, r), g(), *f()),
             lambda: o.derivative(order=r, fields=g(), **kw()),
             lambda: np.stack([o.derivative(r, arr(c, F[..., i]), *X) for i in range(n)], -1 - r))
    elif k in ('gradient', 'hessian'):
        r = 1 if k == 'gradient' else 2
        q = getattr(o, k)
        same(c, k, lambda: q(None, *X), lambda: q(None, *f()), lambda: q(**kw()), lambda: o.derivative(r, None, *f()),
             lambda: o.derivative(order=r, **kw()), lambda: q(None, *f(), mapped=False))
    elif k == 'derivative':
        r = int(rng.integers(1, 5))
        same(c, k, lambda: o.derivative(r, None, *X), lambda: o.derivative(cnt(c, r), None, *f()), lambda: o.derivative(r, **kw()),
             lambda: o.derivative(order=cnt(c, r), fields=None, **kw()), lambda: o.derivative(r, None, *f(), mapped=False))
    elif k == 'mapped':
        F = rng.normal(size=o.shape)
        for m in (False, True):
            same(c, 'gradient: mapped', lambda: o.gradient(F, *X, mapped=m), lambda: o.gradient(F, *f(), mapped=int(m)),
                 lambda: o.gradient(F, *f(), mapped=np.bool_(m)), lambda: o.gradient(fields=F, mapped=m, **kw()))
    elif k == 'per-axis':
        for name in ('spans', 'greville', 'lagrange', 'breaks') + (('lobatto',) if max(o.degree) < 10 else ()):
            g = getattr(o, name)
            same(c, 'query per axis: ' + name, lambda: list(g()), lambda: [g(i) for i in range(dim)], lambda: [g(i - dim) for i in range(dim)],
                 lambda: [g(axis=np.int64(i)) for i in range(dim)], lambda: list(g(None)))
        same(c, 'query per axis: multiplicities', lambda: [list(x) for x in o.breaks(mults=True)],
             lambda: [list(o.breaks(i, True)) for i in range(dim)], lambda: [list(o.breaks(axis=i - dim, mults=1)) for i in range(dim)])
        same(c, 'breaks with and without multiplicities', lambda: list(o.breaks()), lambda: [x[0] for x in o.breaks(mults=True)],
             lambda: list(o.breaks(mults=False)))
    else:
        same(c, 'accessors', lambda: o.array[..., :4], lambda: o.control)
        same(c, 'accessors: weights', lambda: o.array[..., 3], lambda: o.weights, lambda: o.control[..., 3])
        same(c, 'accessors: points', lambda: o.control[..., :3] / o.weights[..., None], lambda: o.points)
        same(c, 'accessors: shape', lambda: list(map(int, o.shape)), lambda: list(o.points.shape[:-1]), lambda: list(o.weights.shape),
             lambda: [len(U) - p - 1 for U, p in zip(o.knots, o.degree)])


def changes(c, o):
    rng = c.rng
    dim = o.dim
    ax = int(rng.integers(dim))
    A = lambda: ax_(c, ax, dim)
    p, U = o.degree[ax], o.knots[ax]
    lo, hi = float(U[p]), float(U[-p - 1])
    N = o.copy
    k = choice(rng, ['insert', 'insert', 'refine', 'refine', 'elevate', 'remove', 'clamp', 'unclamp', 'slice', 'extract', 'boundary',
                     'transpose', 'swap', 'reverse', 'remap', 'translate', 'scale', 'rotate', 'transform'])
    if k == 'insert':
        v = value(c, o, ax, 'inner')
        s = p - int(np.sum(U == v))
        if s < 1:
            return
        t = int(rng.integers(0, s + 1))
        seq = lambda: functools.reduce(lambda n, _: n.insert(A(), num(c, v)), range(t), N())
        same(c, k, lambda: N().insert(ax, v, t), lambda: N().insert(A(), num(c, v), cnt(c, t)),
             lambda: N().insert(axis=A(), value=num(c, v), times=cnt(c, t)), seq, lambda: N().refine(A(), [v] * t))
        same(c, 'insert: default', lambda: N().insert(ax, v, 1), lambda: N().insert(A(), num(c, v)), lambda: N().refine(A(), v))
        same(c, 'insert: as often as possible', lambda: N().insert(ax, v, s), lambda: N().insert(A(), num(c, v), None))
    elif k == 'refine':
        vs = work.knot_list(c, o, ax, ['inner', 'inner', 'knot'], 5, near=False)
        vs = np.sort(np.asarray(vs, 'd').ravel())
        perm = rng.permutation(len(vs))
        one = lambda: functools.reduce(lambda n, i: n.insert(A(), num(c, vs[i])), perm, N())
        cut = int(rng.integers(0, len(vs) + 1))
        same(c, k, lambda: N().refine(ax, vs), lambda: N().refine(A(), arr(c, vs)), lambda: N().refine(A(), arr(c, vs[perm])),
             lambda: N().refine(axis=A(), values=arr(c, vs[perm])), one,
             lambda: N().refine(A(), arr(c, vs[perm[:cut]])).refine(A(), arr(c, vs[perm[cut:]])))
        same(c, 'refine: nothing', lambda: N(), lambda: N().refine(A(), []), lambda: N().refine(A(), None), lambda: N().refine(A(), ()),
             lambda: N().refine(A(), np.zeros(0)), lambda: N().insert(A(), (lo + hi) / 2, 0))
    elif k == 'elevate':
        if o.array.size > 4000:
            return
        t = int(rng.integers(1, 4))
        same(c, k, lambda: N().elevate(ax, t), lambda: N().elevate(A(), cnt(c, t)), lambda: N().elevate(axis=A(), times=t))
        same(c, 'elevate: default', lambda: N().elevate(ax, 1), lambda: N().elevate(A()))
        same(c, 'elevate: nothing', lambda: N(), lambda: N().elevate(A(), 0), lambda: N().elevate(A(), None))
    elif k == 'remove':
        v = gen.param(rng, p, U, 'knot')[0]
        t = int(rng.integers(0, 3))
        d = float(choice(rng, [1e-9, 1e9, 1.0, 0.0]))
        same(c, k, lambda: N().remove(ax, v, t, d), lambda: N().remove(A(), num(c, v), cnt(c, t), num(c, d)),
             lambda: N().remove(axis=A(), value=v, times=t, deviation=d))
        same(c, 'remove: default', lambda: N().remove(ax, v, 1, 1e-9), lambda: N().remove(A(), v), lambda: N().remove(A(), v, 1),
             lambda: N().remove(A(), v, deviation=1e-9))
        if U[p] < v < U[-p - 1]:
            m = min(p, int(np.sum(U == v)))
            same(c, 'remove: all', lambda: N().remove(ax, v, m, d), lambda: N().remove(A(), v, None, d),
                 lambda: N().remove(A(), v, m + int(rng.integers(1, 5)), d))
    elif k == 'clamp':
        same(c, k, lambda: N().clamp(ax), lambda: N().clamp(A(), None), lambda: N().clamp(axis=A(), side=None),
             lambda: N().clamp(A(), 0).clamp(A(), 1), lambda: N().clamp(A(), 1).clamp(A(), np.int64(0)),
             lambda: N().clamp(A()).clamp(A()))
        s = int(rng.integers(2))
        same(c, 'clamp: one side', lambda: N().clamp(ax, s), lambda: N().clamp(A(), side=s), lambda: N().clamp(A(), np.int32(s)),
             lambda: N().clamp(A(), bool(s)))
    elif k == 'unclamp':
        if o.shape[ax] < 2 * p + 1:
            return
        o.clamp(ax)
        s = choice(rng, [None, 0, 1])
        C = int(rng.integers(0, p))
        same(c, k, lambda: N().unclamp(ax, s, C), lambda: N().unclamp(A(), s, cnt(c, C)), lambda: N().unclamp(A(), continuity=C, side=s),
             lambda: N().unclamp(axis=A(), side=s, continuity=C))
        same(c, 'unclamp: default', lambda: N().unclamp(ax, s, p - 1), lambda: N().unclamp(A(), s), lambda: N().unclamp(A(), side=s),
             lambda: N().unclamp(A(), s, None))
        same(c, 'unclamp: both', lambda: N().unclamp(ax, None, C), lambda: N().unclamp(A(), continuity=C))
    elif k == 'slice':
        a, b = sorted([value(c, o, ax, 'inner'), value(c, o, ax, 'inner')])
        if b - a > (hi - lo) * 1e-3:
            same(c, k, lambda: o.slice(ax, a, b), lambda: o.slice(A(), num(c, a), num(c, b)), lambda: o.slice(axis=A(), start=num(c, a), end=b))
        same(c, 'slice: to the end', lambda: o.slice(ax, a, hi), lambda: o.slice(A(), num(c, a), None), lambda: o.slice(A(), a, num(c, hi)))
        same(c, 'slice: from the start', lambda: o.slice(ax, lo, b), lambda: o.slice(A(), None, num(c, b)))
        same(c, 'slice: all', lambda: o.slice(ax, lo, hi), lambda: o.slice(A(), None, None))
    elif k in ('extract', 'boundary'):
        v = value(c, o, ax)
        same(c, 'extract', lambda: o.extract(ax, v), lambda: o.extract(A(), num(c, v)), lambda: o.extract(axis=A(), value=num(c, v)))
        s = int(rng.integers(2))
        same(c, 'boundary', lambda: o.extract(ax, (lo, hi)[s]), lambda: o.boundary(A(), s), lambda: o.boundary(axis=A(), side=np.int64(s)),
             lambda: o.boundary(A(), bool(s)))
    elif k == 'transpose':
        perm = [int(i) for i in rng.permutation(dim)]
        neg = lambda: [ax_(c, i, dim) for i in perm]

        def swaps():
            n, now = N(), list(range(dim))
            for i in range(dim):
                j = now.index(perm[i])
                n.swap(ax_(c, i, dim), ax_(c, j, dim))
                now[i], now[j] = now[j], now[i]
            return n
        same(c, k, lambda: N().transpose(perm), lambda: N().transpose(tuple(neg())), lambda: N().transpose(np.array(neg())),
             lambda: N().transpose(axes=neg()), swaps)
        same(c, 'transpose: default', lambda: N().transpose(list(range(dim))[::-1]), lambda: N().transpose(), lambda: N().transpose(None),
             lambda: N().transpose(range(dim)[::-1]))
    elif k == 'swap':
        b = int(rng.integers(dim))
        perm = list(range(dim))
        perm[ax], perm[b] = b, ax
        same(c, k, lambda: N().swap(ax, b), lambda: N().swap(ax_(c, b, dim), A()), lambda: N().swap(axis1=A(), axis2=ax_(c, b, dim)),
             lambda: N().transpose(perm))
    elif k == 'reverse':
        axes = [int(i) for i in rng.permutation(dim)[:int(rng.integers(1, dim + 1))]]
        same(c, k, lambda: N().reverse(*axes), lambda: N().reverse(*[ax_(c, i, dim) for i in axes[::-1]]),
             lambda: functools.reduce(lambda n, i: n.reverse(ax_(c, i, dim)), axes, N()))
        same(c, 'reverse: default', lambda: N().reverse(*range(dim)), lambda: N().reverse())
    elif k == 'remap':
        a = float(rng.integers(-8, 8)) / 2
        b = a + float(rng.integers(1, 8)) / 4
        if rng.random() < .5:
            a, b = np.sort(short(rng, 2))
            if b - a < 1e-3:
                b = a + 1
        if rng.random() < .2:     # an end at zero is an end like another
            a, b = choice(rng, [(-b + a, 0.0), (0.0, b - a)])
            same(c, 'remap: twice', lambda: N().remap(ax, a, b), lambda: N().remap(A(), 1, 3).remap(ax, num(c, a), num(c, b)))
        same(c, k, lambda: N().remap(ax, a, b), lambda: N().remap(A(), num(c, a), num(c, b)), lambda: N().remap(axis=A(), start=a, end=num(c, b)))
        if a < hi:
            same(c, 'remap: keep the end', lambda: N().remap(ax, a, hi), lambda: N().remap(A(), a, None), lambda: N().remap(A(), end=None, start=a))
        if lo < b:
            same(c, 'remap: keep the start', lambda: N().remap(ax, lo, b), lambda: N().remap(A(), None, b))
        same(c, 'remap: keep all', lambda: N(), lambda: N().remap(A(), None, None), lambda: N().remap(A(), lo, hi))
    else:
        moves(c, lambda: N(), k, lambda n, T: n.transform(T))


def moves(c, N, k, apply):
    """Geometric transforms of an object or of a transform."""
    rng = c.rng
    v = rng.integers(-6, 7, 3) / 2.0
    if rng.random() < .3:
        v = short(rng, 3)
    T = transform
    if k == 'translate':
        n = int(rng.integers(1, 4))
        w = np.where(np.arange(3) < n, v, 0)
        M = np.eye(4)
        M[:3, 3] = w
        same(c, k, lambda: N().translate(w), lambda: N().translate(arr(c, w)), lambda: N().translate(arr(c, v[:n])), lambda: N().move(arr(c, w)),
             lambda: N().translate(displ=arr(c, w)), lambda: apply(N(), T().translate(w)), lambda: apply(N(), M), lambda: apply(N(), M.tolist()),
             lambda: apply(N(), T(M)), lambda: N().translate(v[0], 0).translate(w[1], 1).move(num(c, w[2]), 2))
        i = int(rng.integers(3))
        e = np.zeros(3)
        e[i] = v[0]
        same(c, 'translate: along an axis', lambda: N().translate(e), lambda: N().translate(num(c, v[0]), ax_(c, i, 3)),
             lambda: N().move(displ=num(c, v[0]), axis=ax_(c, i, 3)), lambda: N().move(v[0], i))
        same(c, 'translate: default axis', lambda: N().translate([v[0]]), lambda: N().translate(num(c, v[0])),
             lambda: N().translate(v[0], None), lambda: N().translate(v[0], 0))
    elif k == 'scale':
        v = np.where(v == 0, 1.5, v)
        n = int(rng.integers(1, 4))
        w = np.where(np.arange(3) < n, v, 1)
        same(c, k, lambda: N().scale(w), lambda: N().scale(arr(c, w)), lambda: N().scale(arr(c, v[:n])), lambda: apply(N(), T().compose(np.diag(w))),
             lambda: apply(N(), np.diag(np.r_[w, 1])), lambda: apply(N(), T().compose(np.diag(w).tolist())), lambda: apply(N(), T().scale(w)),
             lambda: N().scale(w[0], 0).scale(num(c, w[1]), 1).scale(num(c, w[2]), ax_(c, 2, 3)), lambda: N().scale(scale=arr(c, w)))
        same(c, 'scale: all alike', lambda: N().scale([v[0]] * 3), lambda: N().scale(num(c, v[0])), lambda: N().scale(v[0], None))
        i = int(rng.integers(3))
        e = np.ones(3)
        e[i] = v[0]
        same(c, 'scale: along an axis', lambda: N().scale(e), lambda: N().scale(num(c, v[0]), ax_(c, i, 3)),
             lambda: N().scale(scale=num(c, v[0]), axis=ax_(c, i, 3)))
    elif k == 'rotate':
        a = choice(rng, [float(rng.uniform(-4, 4)), float(rng.integers(-4, 4)), float(rng.integers(-8, 8)) / 4, float(short(rng, 1)[0])])
        i = int(rng.integers(3))
        e = np.zeros(3)
        e[i] = 1
        s = choice(rng, [1.0, 2.0, 1e-3, 1e3])
        same(c, k, lambda: N().rotate(a, e), lambda: N().rotate(num(c, a), ax_(c, i, 3)), lambda: N().rotate(a, arr(c, e * s)),
             lambda: N().rotate(angle=num(c, a), axis=ax_(c, i, 3)), lambda: N().rotate(a, arr(c, e[:i + 1])),
             lambda: N().rotate(-a, arr(c, -e)), lambda: apply(N(), T().rotate(a, i)), lambda: N().rotate(a / 2, i).rotate(a / 2, i))
        same(c, 'rotate: default axis', lambda: N().rotate(a, (0, 0, 1)), lambda: N().rotate(num(c, a)), lambda: N().rotate(a, -1))
        w = np.where(v == 0, 1.0, v)
        same(c, 'rotate: about a direction', lambda: N().rotate(a, w), lambda: N().rotate(num(c, a), arr(c, w)), lambda: N().rotate(a, 4 * w),
             lambda: N().rotate(-a, -w), lambda: N().rotate(a, axis=tuple(w)))
    else:
        M = np.eye(4)
        M[:3] = rng.integers(-6, 7, (3, 4)) / 2.0 if rng.random() < .6 else short(rng, (3, 4))
        M[:3, :3] += 7 * np.eye(3)
        R = M.copy()
        R[:3, 3] = 0
        same(c, 'transform', lambda: apply(N(), M), lambda: apply(N(), T(M)), lambda: apply(N(), arr(c, M)), lambda: apply(N(), T(arr(c, M))),
             lambda: apply(N(), T(T(M))), lambda: apply(N(), T(M).copy()), lambda: apply(N(), T(M).clone()), lambda: apply(N(), T(matrix=M)),
             lambda: apply(apply(N(), R), T().translate(M[:3, 3])), lambda: apply(N(), T().compose(M)),
             lambda: apply(N(), T(R).translate(arr(c, M[:3, 3]))))
        same(c, 'transform: linear part', lambda: apply(N(), R), lambda: apply(N(), T().compose(arr(c, R[:3, :3]))))
        same(c, 'transform: nothing', lambda: N(), lambda: apply(N(), T()), lambda: apply(N(), np.eye(4)),
             lambda: apply(N(), T(M).compose(T(M).inverse())) if np.linalg.cond(M) < 50 else N())


def transforms(c):
    B = transform(np.eye(4) + np.diag([1, 2], 2))
    k = choice(c.rng, ['translate', 'scale', 'rotate', 'transform'])
    moves(c, lambda: B.copy(), k, lambda t, M: t.compose(M))
    Bi = B.copy()
    same(c, 'inverse', lambda: B.inverse(), lambda: B.copy().invert(), lambda: transform(np.linalg.inv(B.matrix)))
    P = c.rng.integers(-9, 9, (3, 4)).astype('d')
    same(c, 'transform of points', lambda: B(P), lambda: B(arr(c, P)), lambda: np.stack([B(x) for x in P]), lambda: np.stack([B(arr(c, x)) for x in P]),
         lambda: B.clone()(P))


def shapes(c):
    rng = c.rng
    q = lambda *s: rng.integers(-8, 9, s) / choice(rng, [1.0, 2.0, 4.0])
    k = choice(rng, ['line', 'circle', 'circle', 'arc', 'bilinear', 'grid', 'grid'])
    if k == 'line':
        a, b = q(2), q(2)
        z = lambda x: np.r_[x, 0.0]
        same(c, k, lambda: cad.line(a, b), lambda: cad.line(arr(c, a), arr(c, b)), lambda: cad.line(arr(c, z(a)), arr(c, b)),
             lambda: cad.line(p1=arr(c, z(b)), p0=arr(c, a)), lambda: cad.linear([z(a), z(b)]), lambda: cad.linear(arr(c, [a, b])),
             lambda: NURBS([[0, 0, 1, 1]], np.array([a, b])))
        same(c, 'line: default', lambda: cad.line((0, 0), (1, 0)), lambda: cad.line(), lambda: cad.line((0, 0)), lambda: cad.line(p1=(1, 0)))
        same(c, 'line: one coordinate', lambda: cad.line((a[0], 0), (b[0], 0)), lambda: cad.line([a[0]], [b[0]]), lambda: cad.line(a[0], b[0]))
    elif k == 'circle':
        r = float(choice(rng, [1, 2, .5, 3]))
        x = q(3)
        flatx = np.r_[x[:2], 0.0]
        same(c, k, lambda: cad.circle(r, x), lambda: cad.circle(num(c, r), arr(c, x)), lambda: cad.circle(radius=num(c, r), center=arr(c, x), angle=None),
             lambda: cad.circle(r).translate(x), lambda: cad.circle(1, None).scale([r, r]).translate(x))
        same(c, 'circle: center in the plane', lambda: cad.circle(r, flatx), lambda: cad.circle(r, arr(c, x[:2])), lambda: cad.circle(r, center=tuple(x[:2])))
        same(c, 'circle: default', lambda: cad.circle(1, (0, 0, 0)), lambda: cad.circle(), lambda: cad.circle(1.0, None), lambda: cad.circle(1, None, None))
    elif k == 'arc':
        r = float(choice(rng, [1, 2, .5]))
        a = float(rng.uniform(.1, 6.2))
        s = float(rng.integers(-3, 3))
        x = q(2)
        same(c, k, lambda: cad.circle(r, x, (0.0, a)), lambda: cad.circle(num(c, r), arr(c, x), a), lambda: cad.circle(r, x, angle=[0, a]),
             lambda: cad.circle(r, x, (None, a)), lambda: cad.circle(r, angle=np.float64(a)).translate(x))
        same(c, 'arc: between two angles', lambda: cad.circle(r, None, (s, s + a)), lambda: cad.circle(r, angle=[int(s), np.float64(s + a)]),
             lambda: cad.circle(r, angle=a).rotate(s))
        same(c, 'arc: to the full turn', lambda: cad.circle(r, None, (.5, 2 * np.pi)), lambda: cad.circle(r, None, (.5, None)))
        same(c, 'arc: all', lambda: cad.circle(r, None, (0, 2 * np.pi)), lambda: cad.circle(r, None, (None, None)), lambda: cad.circle(r, None, 2 * np.pi))
    elif k == 'bilinear':
        X = q(2, 2, 2, 3)
        same(c, k, lambda: cad.bilinear(X[0]), lambda: cad.bilinear(arr(c, X[0])), lambda: cad.bilinear(points=arr(c, X[0])),
             lambda: NURBS([[0, 0, 1, 1]] * 2, X[0]), lambda: cad.ruled(cad.line(X[0, 0, 0], X[0, 1, 0]), cad.line(X[0, 0, 1], X[0, 1, 1])))
        same(c, 'trilinear', lambda: cad.trilinear(X), lambda: cad.trilinear(arr(c, X)), lambda: cad.trilinear(points=X), lambda: NURBS([[0, 0, 1, 1]] * 3, X),
             lambda: cad.ruled(cad.bilinear(X[:, :, 0]), cad.bilinear(X[:, :, 1])))
        h = np.array([-.5, .5])
        G = np.stack(np.meshgrid(h, h, h, indexing='ij'), -1)
        same(c, 'default shapes', lambda: [cad.linear(G[:, 1, 1, :1] * [1, 0]), cad.bilinear(G[:, :, 0, :2]), cad.trilinear(G)],
             lambda: [cad.linear(), cad.bilinear(), cad.trilinear()], lambda: [cad.linear(None), cad.bilinear(None), cad.trilinear(None)])
    else:
        dim = int(rng.integers(1, 4))
        n = [int(x) for x in rng.integers(1, 5, dim)]
        p = int(rng.integers(1, 4))
        C = int(rng.integers(0, p))
        a, b = 0.0, float(rng.integers(1, 5))
        w = bool(rng.random() < .3) and all(x > p for x in n)
        ints = lambda x: choice(rng, [list, tuple, np.array, lambda y: np.array(y, 'i')])(x)
        same(c, k, lambda: cad.grid(n, [p] * dim, [C] * dim, [(a, b)] * dim, [w] * dim), lambda: cad.grid(ints(n), cnt(c, p), cnt(c, C), (num(c, a), b), w),
             lambda: cad.grid(shape=ints(n), degree=ints([p] * dim), continuity=ints([C - p] * dim), limits=arr(c, [(a, b)] * dim), wrap=np.bool_(w)),
             lambda: cad.grid(ints(n), p, C - p, [num(c, a), num(c, b)], [w] * dim), lambda: cad.grid(n, p, C, limits=arr(c, (a, b)), wrap=ints([w] * dim)))
        same(c, 'grid: default', lambda: cad.grid(n, 2, 1, (0.0, 1.0), False), lambda: cad.grid(n), lambda: cad.grid(ints(n), 2), lambda: cad.grid(n, 2, None),
             lambda: cad.grid(n, 2, -1), lambda: cad.grid(n, continuity=[1] * dim), lambda: cad.grid(n, limits=(0, 1)))
        if dim == 1:
            same(c, 'grid: one axis', lambda: cad.grid([n[0]], p, C), lambda: cad.grid(n[0], p, C), lambda: cad.grid(np.int64(n[0]), [p], [C]))


def constructions(c, o):
    rng = c.rng
    q = lambda *s: rng.integers(-8, 9, s) / choice(rng, [1.0, 2.0, 4.0])
    k = choice(rng, ['extrude', 'revolve', 'compat', 'refine', 'refine', 'ruled', 'coons', 'join'])
    if o.dim == 3 and k in ('extrude', 'revolve', 'ruled'):
        o = o.boundary(int(rng.integers(3)), 0)
    dim = o.dim
    if k == 'extrude':
        v = q(3)
        n = int(rng.integers(1, 4))
        w = np.where(np.arange(3) < n, v, 0)
        same(c, k, lambda: cad.extrude(o, w), lambda: cad.extrude(o, arr(c, v[:n])), lambda: cad.extrude(nrb=o.copy(), displ=arr(c, w)),
             lambda: cad.ruled(NURBS(o.knots, o.control), NURBS(o.knots, o.control).translate(w)),
             lambda: cad.extrude(NURBS(o.knots, np.array(o.control)), w))
        i = int(rng.integers(3))
        e = np.zeros(3)
        e[i] = v[0]
        same(c, 'extrude: along an axis', lambda: cad.extrude(o, e), lambda: cad.extrude(o, num(c, v[0]), ax_(c, i, 3)),
             lambda: cad.extrude(o, displ=num(c, v[0]), axis=i))
    elif k == 'revolve':
        x = q(3)
        n = int(rng.integers(1, 4))
        y = np.where(np.arange(3) < n, x, 0)
        a = choice(rng, [None, float(rng.uniform(.2, 6)), (float(rng.uniform(-1, 1)), float(rng.uniform(1.5, 4)))])
        i = int(rng.integers(3))
        e = np.zeros(3)
        e[i] = 1
        # other ways of stating the axis take another frame: points agree to rounding of the frame
        same(c, k, lambda: cad.revolve(o, y, e, a), lambda: cad.revolve(o, arr(c, x[:n]), ax_(c, i, 3), a), lambda: cad.revolve(o, y, arr(c, e), list(a) if isinstance(a, tuple) else a),
             lambda: cad.revolve(nrb=o, point=arr(c, y), axis=arr(c, e[:i + 1]), angle=a), lambda: cad.revolve(o, y, 2 * e, a))
        same(c, 'revolve: default', lambda: cad.revolve(o, y, 2, None), lambda: cad.revolve(o, y), lambda: cad.revolve(o, arr(c, y), (0, 0, 1)))
        if n == 1:
            same(c, 'revolve: one coordinate', lambda: cad.revolve(o, y, i, a), lambda: cad.revolve(o, num(c, x[0]), i, a))
    elif k == 'compat':
        b, c3 = o.copy().reverse(0), o.copy()
        v = value(c, b, 0, 'inner')
        if np.sum(b.knots[0] == v) < b.degree[0]:
            b.insert(0, v, 1)
        c3.remap(dim - 1, None, c3.knots[-1][-c3.degree[-1] - 1] + 1)
        same(c, k, lambda: cad.compat(o, b, c3), lambda: cad.compat([o, b, c3]), lambda: cad.compat((o, b, c3)), lambda: cad.compat(o, b, c3, axes=None),
             lambda: cad.compat(o, b, c3, axes=range(dim)), lambda: cad.compat(o, b, c3, axes=[i - dim for i in range(dim)]),
             lambda: cad.compat(*[[o, b, c3][i] for i in (2, 0, 1)])[1:] + cad.compat(*[[o, b, c3][i] for i in (2, 0, 1)])[:1])
        i = int(rng.integers(dim))
        same(c, 'compat: one axis', lambda: cad.compat(o, b, c3, axes=[i]), lambda: cad.compat(o, b, c3, axes=i), lambda: cad.compat([o, b, c3], axes=i - dim),
             lambda: cad.compat(o, b, c3, axes=np.array([i])))
        same(c, 'compat: nothing to do', lambda: [o.copy()], lambda: list(cad.compat(o)), lambda: list(cad.compat([o])))
        same(c, 'compat: no axes', lambda: [o.copy(), b.copy()], lambda: list(cad.compat(o, b, axes=[])), lambda: list(cad.compat([o, b], axes=())))
    elif k == 'refine':
        f = [int(x) for x in rng.integers(1, 4, dim)]
        g = int(rng.integers(1, 4))
        d = [p + int(x) for p, x in zip(o.degree, rng.integers(0, 2, dim))]
        ints = lambda x: choice(rng, [list, tuple, np.array])(x)
        if o.array.size * 6 ** dim > 60000:
            return
        R = cad.refine
        same(c, 'cad.refine: factor', lambda: R(o, f, None, None), lambda: R(o, ints(f)), lambda: R(nrb=o, factor=ints(f)), lambda: R(o, [cnt(c, x) for x in f]),
             lambda: R(o, f, ints(o.degree)), lambda: R(o, f, [None] * dim),
             *([lambda: R(o, [[x] * (len(b) - 1) for x, b in zip(f, o.breaks())])] if len(set(map(len, o.breaks()))) == dim else []))
        same(c, 'cad.refine: one factor', lambda: R(o, [g] * dim), lambda: R(o, g), lambda: R(o, np.int64(g)), lambda: R(o, factor=g))
        same(c, 'cad.refine: degree', lambda: R(o, None, d), lambda: R(o, degree=ints(d)), lambda: R(o, None, [x if x > p else None for x, p in zip(d, o.degree)]))
        t = max(o.degree) + 1
        same(c, 'cad.refine: one degree', lambda: R(o, None, [t] * dim), lambda: R(o, None, t), lambda: R(o, degree=np.int64(t)))
        C = int(rng.integers(0, min(o.degree)))
        same(c, 'cad.refine: continuity', lambda: R(o, f, None, [C] * dim), lambda: R(o, f, None, C), lambda: R(o, ints(f), continuity=ints([C] * dim)),
             lambda: R(o, f, continuity=np.int64(C)))
        same(c, 'cad.refine: nothing', lambda: R(o, None, None, None), lambda: R(o), lambda: R(o, [None] * dim))
    elif k == 'ruled':
        b = o.copy().translate([1, 2, 3])
        same(c, k, lambda: cad.ruled(o, b), lambda: cad.ruled(nrb1=o, nrb2=b), lambda: cad.ruled(*cad.compat(o, b)), lambda: cad.ruled(o.copy(), b.copy()),
             lambda: cad.ruled(b, o).reverse(-1))
    elif k == 'coons':
        X = q(2, 2, 3)
        L1 = lambda a, b: cad.line(a, b)
        cs = [[L1(X[0, 0], X[0, 1]), L1(X[1, 0], X[1, 1])], [L1(X[0, 0], X[1, 0]), L1(X[0, 1], X[1, 1])]]
        same(c, k, lambda: cad.coons(cs), lambda: cad.coons(tuple(map(tuple, cs))), lambda: cad.coons(curves=cs), lambda: cad.bilinear(X),
             lambda: cad.coons(np.array(cs, dtype=object)))
    elif k == 'join':
        i = int(rng.integers(dim))
        p, U = o.degree[i], o.knots[i]
        v = U[p] + .4 * (U[-p - 1] - U[p])
        a, b = o.slice(i, None, v), o.slice(i, v, None)
        same(c, k, lambda: cad.join(a, b, i), lambda: cad.join(nrb1=a, nrb2=b, axis=np.int64(i)), lambda: cad.join(a.copy(), b.copy(), axis=i))


def files(c, o):
    rng = c.rng
    fn = os.path.join(c.tmp, 'x')

    def wr(*a, **k):
        io.PetIGA(*k.pop('init', ()), **k.pop('kinit', {})).write(fn, *a, **k)
        with open(fn, 'rb') as f:
            return f.read()
    if rng.random() < .5:
        same(c, 'write', lambda: wr(o, True, True, None), lambda: wr(o), lambda: wr(nurbs=o), lambda: wr(o, control=True, fields=1), lambda: wr(o, nsd=o.dim),
             lambda: wr(o, init=('double',)), lambda: wr(o, kinit=dict(precision='double', scalar='real', indices='32bit')), lambda: wr(o.copy()))
        same(c, 'write: no fields', lambda: wr(o, fields=False), lambda: wr(NURBS(o.knots, o.control)), lambda: wr(o, True, False))
        same(c, 'read', lambda: io.PetIGA().read(fn), lambda: io.PetIGA('double', 'real', '32bit').read(filename=fn))
        A = rng.integers(-9, 9, o.shape + (int(rng.integers(1, 3)),)) / 2.0

        def vec(a, *n, **k):
            io.PetIGA().write_vec(fn, a, *n, **k)
            with open(fn, 'rb') as f:
                return f.read()
        same(c, 'write_vec', lambda: vec(A, o), lambda: vec(arr(c, A), o), lambda: vec(arr(c, A), nurbs=o), lambda: vec(A.reshape(-1), o),
             lambda: vec(np.moveaxis(A, -1, 0).ravel('f')), lambda: vec(arr(c, np.moveaxis(A, -1, 0).ravel('f')), None))
    else:
        def vtk(*a, **k):
            io.VTK().write(fn, *a, **k)
            with open(fn, 'rb') as f:
                return f.read()
        same(c, 'vtk', lambda: vtk(o, True, None, (), (), None), lambda: vtk(o), lambda: vtk(nurbs=o), lambda: vtk(o, sampler=lambda u: u),
             lambda: vtk(o, fields=False), lambda: vtk(o, scalars={}, vectors={}))
        F = np.stack([o.points[..., 0], o.points[..., 1], o.weights], -1)
        same(c, 'vtk: fields', lambda: vtk(o, fields=F, scalars=[('a', 0), ('b', 2)], vectors=[('v', [0, 1])]),
             lambda: vtk(o, fields=arr(c, F), scalars=dict(b=2, a=0), vectors=dict(v=(0, 1))),
             lambda: vtk(o, True, F.tolist(), (('a', 0), ('b', 2)), (('v', np.array([0, 1])),)),
             lambda: vtk(NURBS(o.knots, o.control, fields=F), fields=True, scalars=[('a', 0), ('b', 2)], vectors=[('v', [0, 1])]))


def plots(c, o):
    def drawn(name, *a, **k):
        pl, r = Plotter(), Rec(6, 4)
        pl._backend = r
        getattr(pl, name)(o, *a, **k)
        return r.drawn()
    dim = o.dim
    axes = tuple(range(dim))
    for name in ('kwire', 'ksurf'):
        if dim == 1 and name == 'ksurf':
            continue
        same(c, 'plot: ' + name, lambda: drawn(name, axes=axes), lambda: drawn(name), lambda: drawn(name, None), lambda: drawn(name, axes=list(axes)))
        for i in range(dim):
            same(c, 'plot: %s of one axis' % name, lambda: drawn(name, axes=(i,)), lambda: drawn(name, axes=i), lambda: drawn(name, (i - dim,)),
                 lambda: drawn(name, [i]), lambda: drawn(name, np.int64(i)))
        if dim == 3:
            i = int(c.rng.integers(3))
            two = [x for x in range(3) if x != i]
            same(c, 'plot: %s of two axes' % name, lambda: drawn(name, axes=tuple(two)), lambda: drawn(name, axes=two), lambda: drawn(name, [x - 3 for x in two]))


def case(c):
    rng = c.rng
    k = choice(rng, ['queries', 'queries', 'changes', 'changes', 'changes', 'transforms', 'shapes', 'constructions', 'constructions', 'files', 'plots', 'plots'])
    if k == 'transforms':
        transforms(c)
        return c.nontrivial(k, c.idx)
    if k == 'shapes':
        shapes(c)
        return c.nontrivial(k, c.idx)
    o = work.obj(c, weights=choice(rng, ['none', 'mild', 'mild', 'wide']), scale=choice(rng, [1.0, 1e3, 1e-3]))
    if rng.random() < .6:
        simple(c, o)
    c.note(family=k)
    dict(queries=queries, changes=changes, constructions=constructions, files=files, plots=plots)[k](c, o)
    c.nontrivial(k, o.array, *o.knots)
