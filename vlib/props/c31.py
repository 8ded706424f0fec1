"""Changes of units and of the order of axes and coordinates.

The same request is executed twice: on an object, and on that object with its
coordinates, weights, fields and knots multiplied by powers of two (which does
not round), its parametric axes permuted and its coordinates permuted.  The
second result has to be the first one, changed in the same way.  Nothing else
is assumed about what the request does."""
import os
import numpy as np
from igakit import cad
from igakit.igalib import bsp, iga
from igakit.io import PetIGA, VTK
from igakit.nurbs import NURBS
from igakit.plot import Plotter
from igakit.transform import transform
from vlib import fmt, gen, judge, work
from vlib.gen import choice
from vlib.props import c02
from vlib.props.c25 import Rec
from vlib.ref import Obj, EPS



def two(k):
    return float(np.ldexp(1.0, int(k)))


class Change(object):
    """Units of points (a), weights (b), fields (d) and axes (k); the order of
    the axes (new axis j is old axis axes[j]) and of the coordinates (pi)."""

    def __init__(self, dim, a=0, b=0, d=0, k=None, axes=None, pi=(0, 1, 2)):
        self.dim, self.a, self.b, self.d = dim, a, b, d
        self.k = list(k) if k is not None else [0] * dim
        self.axes = list(axes) if axes is not None else list(range(dim))
        self.pi = list(pi)

    def like(self, **kw):
        now = dict(dim=self.dim, a=self.a, b=self.b, d=self.d, k=self.k, axes=self.axes, pi=self.pi)
        now.update(kw)
        return Change(**now)

    def more(self, k=0):
        """One more axis behind the others."""
        return self.like(dim=self.dim + 1, k=self.k + [k], axes=self.axes + [self.dim])

    def less(self, i):
        k = [x for j, x in enumerate(self.k) if j != i]
        axes = [x - (x > i) for x in self.axes if x != i]
        return self.like(dim=self.dim - 1, k=k, axes=axes)

    plain = False       # is this the first of the two executions?

    def identity(self):
        g = Change(self.dim)
        g.plain = True
        return g

    def odd(self):
        return self.pi in ([0, 2, 1], [1, 0, 2], [2, 1, 0])

    # requests

    def ax(self, i):
        return self.axes.index(i % self.dim)

    def par(self, i, v):
        if v is None:
            return None
        if isinstance(v, (list, tuple)):
            return type(v)(x * two(self.k[i % self.dim]) for x in v)
        return v * two(self.k[i % self.dim])

    def per(self, values):
        """One value per axis, in the new order."""
        return [values[i] for i in self.axes]

    def args(self, uvw):
        return [self.par(i, uvw[i]) for i in self.axes]

    def vec(self, x):
        x = np.asarray(x, 'd')
        return x[..., self.pi] * two(self.a)

    def direction(self, x, e=0):
        return np.asarray(x, 'd')[..., self.pi] * two(e)

    # data

    def grid(self, A):
        """An array with one axis per parametric axis, and others behind."""
        A = np.asarray(A)
        return A.transpose(self.axes + list(range(self.dim, A.ndim)))

    def left(self, A, uvw):
        """The same for results whose axes with scalar arguments are gone."""
        A = np.asarray(A)
        old = [i for i in range(self.dim) if np.ndim(uvw[i])]
        new = [old.index(i) for i in self.axes if i in old]
        return A.transpose(new + list(range(len(new), A.ndim)))

    def knots(self, knots):
        return [np.asarray(knots[i], 'd') * two(self.k[i]) for i in self.axes]

    def array(self, A):
        A = self.grid(A)
        out = np.empty(A.shape)
        out[..., :3] = A[..., :3][..., self.pi] * two(self.a + self.b)
        out[..., 3] = A[..., 3] * two(self.b)
        out[..., 4:] = A[..., 4:] * two(self.b + self.d)
        return out

    def obj(self, nrb):
        return work.make(self.knots(nrb.knots), self.array(nrb.array))


def change(c, dim, far=True, axes=True):
    rng = c.rng

    def power(most):
        return choice(rng, [0, int(rng.integers(-3, 4)), int(rng.integers(-most, most + 1)), choice(rng, [-most, most])])
    far = 1 if far else .2
    g = Change(dim)
    kinds = choice(rng, ['all', 'all', 'points', 'weights', 'fields', 'knots', 'axes', 'coordinates'])
    if kinds in ('all', 'points'):
        g.a = power(int(80 * far))
    if kinds in ('all', 'weights'):
        g.b = power(int(60 * far))
    if kinds in ('all', 'fields'):
        g.d = power(int(80 * far))
    if kinds in ('all', 'knots'):
        g.k = [power(int(50 * far)) for _ in range(dim)]
    if axes and kinds in ('all', 'axes'):
        g.axes = [int(i) for i in rng.permutation(dim)]
    if kinds in ('all', 'coordinates'):
        g.pi = [int(i) for i in rng.permutation(3)]
    c.ev('change:' + kinds)
    return g


def params(c, n, **kw):
    """Parameters of n that survive a change of units (no subnormal numbers)."""
    def clean(u):
        if u is None:
            return None
        if isinstance(u, (list, tuple)):
            return type(u)(clean(x) for x in u)
        if np.ndim(u):
            return u if np.all((np.abs(u) > 1e-280) | (np.asarray(u) == 0)) else np.where(np.abs(u) < 1e-280, 0, u)
        return u if u == 0 or abs(u) > 1e-280 else 0.0
    return [clean(u) for u in work.uvw(c, n, **kw)]


# ------------------------------------------------------------------ comparing

KA, KO = 4000.0, 1e6


def peak(x):
    x = np.abs(np.asarray(x, 'd'))
    return float(np.max(x, initial=0))


def same(c, what, one, oth):
    """one, oth: lists of (name, value, map[, K or scale])."""
    c.check(len(one) == len(oth), what + ': number of results', one=len(one), other=len(oth))
    for x, y in zip(one, oth):
        name, a, _ = x[:3]
        b, g = y[1:3]
        label = '%s after a change of units or order: %s' % (what, name)
        if isinstance(a, NURBS):
            c.check(type(a) is type(b) and a.dim == b.dim, label + ': kind of result')
            K = x[3] if len(x) > 3 else KO
            for i, (p, q) in enumerate(zip(g.knots(a.knots), b.knots)):
                c.near(q, p, peak(p), label + ': knots', K=64, axis=i)
            p, q = g.array(a.array), b.array
            c.check(p.shape == q.shape, label + ': shape', got=q.shape, want=p.shape)
            for cols in (slice(0, 3), slice(3, 4)):
                c.near(q[..., cols], p[..., cols], peak(p[..., cols]), label + ': control data', K=K)
            for j in range(4, p.shape[-1]):
                c.near(q[..., j], p[..., j], peak(p[..., j]), label + ': fields', K=K)
            c.ev('objects-compared')
        else:
            a = g(a)
            scale = g(x[3]) if len(x) > 3 else peak(a)
            c.near(b, a, scale, label, K=KA)
            c.ev('arrays-compared')


def run(c, what, request, g):
    c.note(request=what, change=vars(g))
    one = oth = None
    try:
        one = request(g.identity())
    except Exception as e:
        c.ev('refused')
        c.ev('refused:' + what)
        c.refusal = repr(e)
        one = e
    try:
        oth = request(g)
    except Exception as e:
        if not isinstance(one, Exception):
            c.fail('%s works, but not after a change of units or order' % what, error=repr(e))
        oth = e
    if isinstance(one, Exception):
        c.check(isinstance(oth, Exception), what + ' is refused, but not after a change of units or order', error=repr(one))
        return
    same(c, what, one, oth)
    c.ev('pairs')
    c.ev('request:' + what)
    for x in one:
        if isinstance(x[1], NURBS):
            c.nontrivial(x[1].array, *x[1].knots)
        else:
            c.nontrivial(np.asarray(x[1]))


# ------------------------------------------------------------------- requests
# each draws a request and returns (name, how to state it under a change)

def r_call(c, n, g):
    uvw = params(c, n, none=0)
    f = choice(c.rng, [False, True]) if n.array.shape[-1] > 4 else False

    def go(g):
        o = g.obj(n)
        pts = lambda P: g.vec(g.left(P, uvw))
        r = o(*g.args(uvw), fields=f)
        if not f:
            return [('points', r, pts)]
        return [('points', r[0], pts), ('fields', r[1], lambda F: g.left(F, uvw) * two(g.d))]
    return 'evaluation', go


def r_evaluate(c, n, g):
    uvw = params(c, n, none=0)
    F = None
    if n.array.shape[-1] == 4 or c.rng.random() < .5:
        F = np.asarray(work.fields(c, n), 'd')

    def go(g):
        return [('fields', g.obj(n).evaluate(None if F is None else g.grid(F) * two(g.d), *g.args(uvw)),
                 lambda F: g.left(F, uvw) * two(g.d))]
    return 'evaluation of fields', go


def r_derivative(c, n, g):
    rng = c.rng
    order = choice(rng, [1, 1, 2, 2, 3, 4] if n.dim > 1 else [1, 2, 3])
    uvw = params(c, n, none=0)
    what = choice(rng, ['default', 'given', 'points'])
    F = np.asarray(work.fields(c, n), 'd') if what == 'given' else None
    own = n.array.shape[-1] > 4
    pre = Obj.of(g.identity().obj(n))
    if F is not None:
        data = F
    elif what == 'default' and own:
        data = pre.array[..., 4:] / pre.array[..., 3:4]
    else:
        data = pre.coords()
    V, E = pre.deriv(order, [np.asarray(u, 'd').ravel() for u in uvw], data)
    if data.shape == pre.shape:
        E = E[(slice(None),) * pre.dim + (0,)]
    E = judge.drop(E, [np.ndim(u) == 0 for u in uvw])
    how = choice(rng, ['derivative', 'named']) if order < 3 else 'derivative'

    def go(g):
        o = g.obj(n)
        arg = None
        if what == 'given':
            arg = g.grid(F) * two(g.d)
        elif what == 'points':
            arg = o.points
        if how == 'named':
            r = [o.gradient, o.hessian][order - 1](arg, *g.args(uvw))
        else:
            r = o.derivative(order, arg, *g.args(uvw))

        def turn(D):
            D = g.left(D, uvw)
            if what == 'points' or what == 'default' and not own:
                D = np.take(D, g.pi, axis=D.ndim - order - 1) * two(g.a)
            else:
                D = D * two(g.d)
            for j in range(order):
                D = np.take(D, g.axes, axis=D.ndim - 1 - j)
                D = D * np.array([two(-g.k[i]) for i in g.axes]).reshape((-1,) + (1,) * j)
            return D
        return [('derivatives', r, turn, E)]
    return 'derivative of order %d' % order, go


def r_mapped(c, n, g):
    m = c02.regular(c)
    h = change(c, m.dim)
    pi = [int(i) for i in c.rng.permutation(m.dim)] + list(range(m.dim, 3))
    h = h.like(pi=pi if h.pi != [0, 1, 2] else [0, 1, 2])
    g.__dict__.update(vars(h))
    uvw = params(c, m, none=0)
    F = np.asarray(work.fields(c, m), 'd')

    def go(g):
        r = g.obj(m).gradient(g.grid(F) * two(g.d), *g.args(uvw), mapped=True)

        def turn(D):
            D = g.left(D, uvw) * two(g.d - g.a)
            return np.take(D, g.pi[:m.dim], axis=-1)
        return [('gradient', r, turn, np.full(np.shape(r), 1e4 * peak(r)))]
    return 'physical gradient', go


def parametric(name, draw):
    """A method of one axis that changes the object in place."""

    def make(c, n, g):
        got = draw(c, n)
        if got is None:
            return None
        i, values, rest, K = got
        i %= n.dim
        rest = dict(rest)

        def go(g):
            o = g.obj(n)
            r = getattr(o, name)(g.ax(i), *[g.par(i, v) for v in values], **rest)
            c.check(r is o, name + ' did not return the object')
            return [('object', o, g, K)]
        return name, go
    return make


def d_insert(c, n):
    i = work.axis(c, n) % n.dim
    v, _, m = work.room(c, n, i)
    if not m:
        return None
    return i, [v], dict(times=int(c.rng.integers(1, m + 1))), KO


def d_refine(c, n):
    i = work.axis(c, n) % n.dim
    return i, [work.knot_list(c, n, i)], {}, KO


def d_elevate(c, n):
    i = work.axis(c, n) % n.dim
    p, U = n.degree[i], n.knots[i]
    t = int(c.rng.integers(1, 4))
    if p + t > 7:
        return None
    return i, [], dict(times=t), KO * min(1e5, max(1., judge.spread(p, U) ** p / 1e3))


def d_remove(c, n):
    # all or nothing: other deviations depend on the unit
    i = work.axis(c, n) % n.dim
    p, U = n.degree[i], n.knots[i]
    v, _ = gen.param(c.rng, p, U, choice(c.rng, ['knot', 'knot', 'knot', 'inner']))
    return i, [v], dict(times=choice(c.rng, [1, 2, None]), deviation=1e300), 1e9


def d_clamp(c, n):
    return work.axis(c, n) % n.dim, [], dict(side=choice(c.rng, [None, 0, 1])), KO


def d_unclamp(c, n):
    i = work.axis(c, n) % n.dim
    p, U = n.degree[i], n.knots[i]
    if n.shape[i] < 2 * p + 1 or judge.spread(p, U) > 30 or p > 4:
        return None
    return i, [], dict(side=choice(c.rng, [None, 0, 1]), continuity=int(c.rng.integers(0, p))), 1e9


def r_slice(c, n, g):
    i = work.axis(c, n) % n.dim
    v = work.interval(c, n.degree[i], n.knots[i])

    def go(g):
        return [('object', g.obj(n).slice(g.ax(i), *[g.par(i, x) for x in v]), g, KO)]
    return 'slice', go


def r_extract(c, n, g):
    i = work.axis(c, n) % n.dim
    v = gen.param(c.rng, n.degree[i], n.knots[i])[0]
    side = choice(c.rng, [None, 0, 1])

    def go(g):
        o = g.obj(n)
        r = o.extract(g.ax(i), g.par(i, v)) if side is None else o.boundary(g.ax(i), side)
        if isinstance(r, NURBS) and r.dim:
            return [('object', r, g.less(i))]
        A = np.asarray(r.array if isinstance(r, NURBS) else r)
        return [('point', A, lambda A: g.less(i).array(A))]
    return 'extract' if side is None else 'boundary', go


def r_reverse(c, n, g):
    axes = [i for i in range(n.dim) if c.rng.random() < .5]

    def go(g):
        return [('object', g.obj(n).reverse(*[g.ax(i) for i in axes]), g)]
    return 'reverse', go


def r_remap(c, n, g):
    i = work.axis(c, n) % n.dim
    a = float(c.rng.uniform(-2, 2))
    b = a + float(c.rng.uniform(.2, 5))
    k = int(c.rng.integers(-40, 41))
    a, b = choice(c.rng, [(a, b), (None, max(b, n.knots[i][-1] + 1)), (min(a, n.knots[i][0] - 1), None)])
    if a is None or b is None:
        k = g.k[i]

    def go(g):
        e = 0 if g.plain else k
        h = g.like(k=[e if j == i else g.k[j] for j in range(g.dim)])
        return [('object', g.obj(n).remap(g.ax(i), *[None if x is None else x * two(e) for x in (a, b)]), h)]
    return 'remap', go


def r_move(c, n, g):
    rng = c.rng
    kind = choice(rng, ['translate', 'scale', 'rotate', 'rotate'])
    t = rng.normal(size=3) * 2
    s = rng.uniform(.3, 3, 3)
    ang = float(rng.uniform(-7, 7))
    e = int(rng.integers(-60, 61))
    j = int(rng.integers(3))
    form = choice(rng, ['vector', 'axis'])
    size = peak(n.points)

    def go(g):
        o = g.obj(n)
        new = g.pi.index(j)
        if kind == 'translate':
            if form == 'axis':
                o.translate(t[j] * two(g.a), new)
            else:
                o.translate(g.vec(t))
        elif kind == 'scale':
            if form == 'axis':
                o.scale(s[j], new)
            else:
                o.scale(s[g.pi])
        else:
            angle = -ang if g.odd() else ang
            if form == 'axis':
                o.rotate(angle, new)
            else:
                o.rotate(angle, g.direction(t, 0 if g.plain else e))
        K = KA * (1 + (peak(t) + size) * two(g.a) / max(peak(o.points), 1e-300))
        return [('object', o, g, K)]
    return kind, go


def r_queries(c, n, g):
    def go(g):
        o = g.obj(n)
        out = []
        for q in ('greville', 'lagrange', 'lobatto', 'breaks', 'spans'):
            for i in range(n.dim):
                f = (lambda v, i=i: g.par(i, v)) if q != 'spans' else (lambda v: v)
                out.append((q, np.asarray(getattr(o, q)(g.ax(i))), f))
        for i in range(n.dim):
            u, s = o.breaks(g.ax(i), mults=True)
            out.append(('multiplicities', np.asarray(s), lambda s: s))
            out.append(('degree', np.asarray(o.degree[g.ax(i)]), lambda s: s))
        out.append(('weights', o.weights, lambda W: g.grid(W) * two(g.b)))
        out.append(('points', o.points, lambda P: g.vec(g.grid(P))))
        if n.array.shape[-1] > 4:
            out.append(('fields', o.fields, lambda F: g.grid(F) * two(g.d)))
        return out
    return 'queries', go


def flat(n):
    return work.NURBS(n.knots, n.array[..., :4])


def r_extrude(c, n, g):
    if n.dim > 2:
        return None
    t = c.rng.normal(size=3) * choice(c.rng, [1, 10, .1])
    m = flat(n)

    def go(g):
        return [('object', cad.extrude(g.obj(m), g.vec(t)), g.more())]
    return 'extrude', go


def r_revolve(c, n, g):
    if n.dim > 2:
        return None
    rng = c.rng
    if g.odd():
        g.pi = [1, 2, 0]
    m = flat(n)
    size = peak(m.points)
    pt = rng.normal(size=3) * choice(rng, [1, size])
    axis = choice(rng, [0, 1, 2, 'v'])
    v = rng.normal(size=3)
    a = float(rng.uniform(-6.2, 6.2))
    ang = choice(rng, [None, a, (a, a + float(rng.uniform(.1, 6)))])
    e = int(rng.integers(-60, 61))

    def go(g):
        ax = g.direction(v, 0 if g.plain else e) if axis == 'v' else g.pi.index(axis)
        r = cad.revolve(g.obj(m), g.vec(pt), ax, ang)
        K = KA * (1 + (peak(pt) + size) * two(g.a + g.b) / max(1e-300, peak(r.array[..., :3])))
        return [('object', r, g.more(), K)]
    return 'revolve', go


def two_of(c, n, g, nf=False):
    """A second object that differs in one respect or in all."""
    rng = c.rng
    m = n.copy() if nf else flat(n)
    A = m.array.copy()
    A[..., :3] += rng.normal(size=3) * peak(A[..., :3])
    knots = [U.copy() for U in m.knots]
    for U, p in zip(knots, m.degree):
        if rng.random() < .3 and p > 0 and U[0] < U[p]:        # other free ends
            U[:p] = U[p] - (U[p] - U[:p]) * rng.uniform(.6, 1.5)
        if rng.random() < .3 and p > 0 and U[-1] > U[-p - 1]:
            U[-p:] = U[-p - 1] + (U[-p:] - U[-p - 1]) * rng.uniform(.6, 1.5)
    m = work.make(knots, A)
    for i in range(m.dim):
        r = rng.random()
        if r < .3 and m.degree[i] < 5:
            m.elevate(i, 1)
        elif r < .6:
            m.refine(i, work.knot_list(c, m, i, ['inner'], 2, near=False))
    return m


def r_ruled(c, n, g):
    if n.dim > 2 or not tame(n):
        return None
    a, b = flat(n), two_of(c, n, g)

    def go(g):
        return [('object', cad.ruled(g.obj(a), g.obj(b)), g.more(), 1e8)]
    return 'ruled', go


def tame(n):
    return all(judge.spread(p, U) < 30 and p < 6 for p, U in zip(n.degree, n.knots))


def r_compat(c, n, g):
    if not tame(n):
        return None
    a, b = n.copy(), two_of(c, n, g, True)

    def go(g):
        return [('object', o, g, 1e8) for o in cad.compat(g.obj(a), g.obj(b))]
    return 'compat', go


def r_sweep(c, n, g):
    if n.dim > 2:
        return None
    m, _ = gen.make(c.rng, NURBS, dim=1, nfields=0)
    s = flat(n)
    k = int(c.rng.integers(-40, 41))
    P = peak(s.points) + peak(m.points)

    def go(g):
        e = 0 if g.plain else k
        t = Change(1, a=g.a, b=g.d, k=[e], pi=g.pi)
        r = cad.sweep(g.obj(s), t.obj(m))
        h = g.more(e).like(b=g.b + g.d)
        return [('object', r, h, KA * (1 + P * two(h.a + h.b) * peak(r.weights) / two(h.b) / max(1e-300, peak(r.array[..., :3]))))]
    return 'sweep', go


def r_coons(c, n, g):
    rng = c.rng
    h = change(c, 2)
    g.__dict__.update(vars(h))
    g.k = [abs(k) for k in g.k]     # the patch is also over [0,1]
    if abs(g.a) > 20:
        g.a = 20 if g.a > 0 else -20
    P = rng.normal(size=(2, 2, 3)) * 3
    W = rng.uniform(.5, 2, (2, 2, 1)) if rng.random() < .5 else np.ones((2, 2, 1))
    H = np.concatenate([P * W, W], -1)

    def curve(x, y):
        p = int(rng.integers(1, 4))
        m, _ = gen.make(rng, NURBS, dim=1, degs=[p], ends='clamped', dom='unit', nfields=0, weights='mild', scale=1., spacing='random')
        A = m.array.copy()
        A[0], A[-1] = x, y
        return work.NURBS(m.knots, A)
    C = [[curve(H[0, 0], H[0, 1]), curve(H[1, 0], H[1, 1])], [curve(H[0, 0], H[1, 0]), curve(H[0, 1], H[1, 1])]]

    def go(g):
        # the first pair runs along the second axis of the patch
        D = [[Change(1, a=g.a, b=g.b, k=[g.k[1 - i]], pi=g.pi).obj(m) for m in C[i]] for i in range(2)]
        if g.axes == [1, 0]:
            D = D[::-1]
        return [('object', cad.coons(D), g, 1e8)]
    return 'coons', go


def r_cadrefine(c, n, g):
    if not tame(n):
        return None
    rng = c.rng
    fac = [int(rng.integers(1, 4)) for _ in range(n.dim)]
    deg = [min(6, p + int(rng.integers(0, 2))) for p in n.degree]
    con = [int(rng.integers(0, p)) for p in deg]
    con = choice(rng, [None, con])

    def go(g):
        return [('object', cad.refine(g.obj(n), g.per(fac), g.per(deg), None if con is None else g.per(con)), g, 1e8)]
    return 'cad.refine', go


def r_join(c, n, g):
    i = work.axis(c, n) % n.dim
    if not tame(n):
        return None
    g.a, g.d = max(-3, min(3, g.a)), max(-3, min(3, g.d))
    g.b = max(-3, min(3, g.b))
    p, U = n.degree[i], n.knots[i]
    v = gen.param(c.rng, p, U, 'inner')[0]
    per = [np.linspace(U[p], U[-p - 1], 5) for p, U in zip(n.degree, n.knots)]

    def go(g):
        o = g.obj(n)
        r = cad.join(o.slice(g.ax(i), None, g.par(i, v)), o.slice(g.ax(i), g.par(i, v), None), g.ax(i))
        P = r(*g.args(per))
        ends = np.array([[U[p], U[-p - 1]] for p, U in zip(r.degree, r.knots)])
        return [('points', P, lambda P: g.vec(g.grid(P)), np.full(P.shape, 1e7 * (peak(P) + 1))),
                ('domain', ends, lambda x: np.array([g.par(i, x[i]) for i in g.axes]))]
    return 'join', go


def r_build(c, n, g):
    rng = c.rng
    g.__dict__.update(vars(change(c, 1, axes=False)))
    kind = choice(rng, ['circle', 'line', 'grid', 'bilinear'])
    r, ctr = float(rng.uniform(.1, 5)), rng.normal(size=3)
    a = float(rng.uniform(-6, 6))
    ang = choice(rng, [None, a, (a, a + float(rng.uniform(.1, 6)))])
    P = rng.normal(size=(2, 2, 3))
    if kind == 'circle':
        g.pi = [0, 1, 2]

    def go(g):
        h = g.like(b=0, k=[0])
        if kind == 'circle':
            o = cad.circle(r * two(g.a), g.vec(ctr), ang)
            return [('object', o, h, KA * (1 + (r + peak(ctr)) / max(1e-300, peak(o.points) / two(g.a))))]
        if kind == 'line':
            return [('object', cad.line(g.vec(P[0, 0]), g.vec(P[0, 1])), h)]
        if kind == 'bilinear':
            return [('object', cad.bilinear(g.vec(P)), h.more())]
        m = cad.grid((3, 4), degree=2)
        return [('points', m.scale(two(g.a)).points, lambda P: P * two(g.a))]
    return kind, go


def r_file(c, n, g):
    back = {}

    def go(g):
        f = os.path.join(c.tmp, 'x%d.dat' % len(back))
        back[f] = 1
        o = g.obj(n)
        PetIGA().write(f, o, nsd=3)
        r = PetIGA().read(f)
        os.remove(f)
        return [('object', r, g)]
    return 'file', go


def r_vtk(c, n, g):
    rng = c.rng
    nf = n.array.shape[-1] - 4
    own = nf > 0 and rng.random() < .5
    F = None if own else rng.normal(size=n.shape + (4,)) * choice(rng, [1, 1e-6, 1e6])
    count = nf if own else 4
    S = [('s%d' % i, i) for i in range(count) if rng.random() < .6]
    V = [('v', [int(rng.integers(count)) for _ in range(3)])] if rng.random() < .6 else []
    control = rng.random() < .7
    sizes = [0]

    def go(g):
        f = os.path.join(c.tmp, 'x%d.vtk' % sizes[0])
        sizes[0] += 1
        VTK().write(f, g.obj(n), control=control, fields=True if own else g.grid(F) * two(g.d), scalars=S, vectors=V)
        with open(f, 'rb') as h:
            d = fmt.parse_vtk(h.read())
        os.remove(f)
        cut = lambda A: A.reshape(d['dims'][:n.dim] + A.shape[3:])
        out = []
        if control:
            out.append(('points', cut(d['points']), lambda P: g.vec(g.grid(P))))
        else:
            for i in range(n.dim):
                out.append(('coordinates', d['coords'][g.ax(i)], lambda x, i=i: g.par(i, x)))
        for kind, name, A in d['data']:
            out.append((kind + ' ' + name, cut(A), lambda A: g.grid(A) * two(g.d)))
        return out
    return 'vtk', go


def r_plot(c, n, g):
    what = choice(c.rng, ['cpoint', 'cwire', 'kpoint', 'kwire', 'curve', 'surface', 'plot'])
    if what == 'curve' and n.dim != 1 or what == 'surface' and n.dim < 2:
        what = 'cpoint'
    g.axes = list(range(n.dim))

    def go(g):
        pl, rec = Plotter(), Rec(7, 5)
        pl._backend = rec
        getattr(pl, what)(g.obj(n))
        out = []
        for name, a, k in rec.calls:
            for piece in ([a[:3]] if name == 'points3d' else a[0] if a else k.get('lines', k.get('surfs'))):
                out.append((name, np.stack([np.asarray(x, 'd') for x in piece], -1), g.vec))
        c.ev('drawn', len(out))
        return out
    return 'plot:' + what, go


def r_native(c, n, g):
    """The low-level functions on one axis."""
    rng = c.rng
    i = int(rng.integers(n.dim))
    p, U = n.degree[i], n.knots[i]
    u = gen.param(rng, p, U)[0]
    d = int(rng.integers(0, p + 1))
    q = int(rng.integers(1, 6))

    def go(g):
        e = two(g.k[i])
        V, v = U * e, u * e
        same = lambda x: x
        out = [('FindSpan', np.asarray(bsp.FindSpan(p, V, v)), same),
               ('FindMult', np.asarray(bsp.FindMult(p, V, v)), same),
               ('EvalBasisFuns', bsp.EvalBasisFuns(p, V, v), same),
               ('Greville', bsp.Greville(p, V), lambda x: x * e),
               ('SpanIndex', bsp.SpanIndex(p, V), same)]
        D = bsp.EvalBasisFunsDers(p, V, v, d)
        for r in range(d + 1):
            out.append(('EvalBasisFunsDers', D[r], lambda x, r=r: x * two(-r * g.k[i])))
        O, J, W, X, N = iga.BasisData(p, V, d, q)
        out += [('BasisData: first', O, same), ('BasisData: lengths', J, lambda x: x * e),
                ('BasisData: weights', W, same), ('BasisData: points', X, lambda x: x * e)]
        for r in range(d + 1):
            out.append(('BasisData: functions', N[..., r], lambda x, r=r: x * two(-r * g.k[i])))
        return out
    return 'low-level', go


REQUESTS = [r_call, r_call, r_evaluate, r_derivative, r_derivative, r_derivative, r_mapped,
            parametric('insert', d_insert), parametric('refine', d_refine), parametric('elevate', d_elevate),
            parametric('remove', d_remove), parametric('clamp', d_clamp), parametric('unclamp', d_unclamp),
            r_slice, r_extract, r_reverse, r_remap, r_move, r_move, r_queries, r_extrude, r_revolve, r_ruled,
            r_compat, r_sweep, r_coons, r_cadrefine, r_join, r_build, r_file, r_vtk, r_plot, r_native]


def case(c):
    n = work.obj(c, maxdeg=5 if c.rng.random() < .5 else None)
    for j in range(4):
        g = change(c, n.dim)
        k = (c.idx * 4 + j) % len(REQUESTS) if c.rng.random() < .5 else int(c.rng.integers(len(REQUESTS)))
        got = REQUESTS[k](c, n, g)
        if got is None:
            c.ev('not-applicable')
            continue
        run(c, got[0], got[1], g)
