"""Monitors of the construction functions of igakit.cad.

Every NURBS argument is snapshotted before the call; afterwards it must be
unchanged (byte for byte), and the result must be what the documented
construction says, evaluated by vlib.ref on the snapshots."""
import copy, inspect, threading
import numpy as np
from igakit import cad
from igakit.nurbs import NURBS
from . import judge, ref
from .judge import KE, KO, grid_for, valid, code_points, m_translate, m_rotate, spread
from .ref import Obj, L, EPS


def affine(u, frm, to):
    """frm -> to, exactly at the ends."""
    u = np.asarray(u, L)
    r = L(to[0]) + (u - L(frm[0])) / (L(frm[1]) - L(frm[0])) * (L(to[1]) - L(to[0]))
    return np.clip(r, L(to[0]), L(to[1]))


def geo(c, nrb, what, positive=True):
    post = Obj.of(nrb)
    valid(c, post, what)
    c.check(not positive or np.all(post.array[..., 3] > 0), what + ': a weight is not positive')
    return post


def ev(c, nrb, post, uvw, what, n=None):
    """The result evaluated by the code, and by the reference, on a grid."""
    V, E = Obj(post.knots, post.array[..., :4]).eval(uvw)
    c.near(nrb(*uvw), V, E, what + ': evaluation of the result', K=KE)
    c.ev('construction-points', V[..., 0].size)
    return V, E


def pts(A, n=3):
    A = np.asarray(A, 'd')
    out = np.zeros(A.shape[:-1] + (n,))
    out[..., :A.shape[-1]] = A
    return out


# ---------------------------------------------------------------- primitives

def multilinear(c, ret, H, what):
    """H: homogeneous corner values, shape (2,)*dim+(4,)."""
    post = geo(c, ret, what)
    dim = H.ndim - 1
    c.check(post.dim == dim, what + ': dimension')
    c.check(post.degree == (1,) * dim, what + ': degree', got=post.degree)
    for ax in range(dim):
        c.check(post.domain(ax) == (0, 1), what + ': domain')
    u = [np.unique(np.concatenate([[0, 1, .5, 1 / 3], c.rng.random(3)])) for _ in range(dim)]
    mats = [np.stack([1 - x.astype(L), x.astype(L)], 1) for x in u]
    V = ref.contract(H.astype(L), mats)
    M = ref.contract(np.abs(H).astype(L), mats)
    V, M = V[..., :3] / V[..., 3:], M[..., :3] / V[..., 3:] * 2
    W, E = ev(c, ret, post, u, what)
    c.near(W, V, M + E, what + ': not the multilinear map', K=64)
    c.ev(what)


def corners(points, shape):
    P = np.asarray(points, 'd')
    H = np.zeros(shape + (4,))
    if P.shape[-1] == 4:
        H[...] = P
    else:
        H[..., :P.shape[-1]] = P
        H[..., 3] = 1
    return H


def j_line(c, ret, p0=(0, 0), p1=(1, 0)):
    H = np.zeros((2, 4))
    for i, p in enumerate((p0, p1)):
        p = np.asarray(p, 'd').ravel()
        H[i, :p.size] = p
        H[i, 3] = 1
    multilinear(c, ret, H, 'line')


def default_box(dim):
    s = np.array([-.5, .5])
    return np.stack(np.meshgrid(*[s] * dim, indexing='ij'), -1) if dim > 1 else np.array([[-.5, 0], [.5, 0]])


def j_linear(c, ret, points=None):
    multilinear(c, ret, corners(default_box(1) if points is None else points, (2,)), 'linear')


def j_bilinear(c, ret, points=None):
    multilinear(c, ret, corners(default_box(2) if points is None else points, (2, 2)), 'bilinear')


def j_trilinear(c, ret, points=None):
    multilinear(c, ret, corners(default_box(3) if points is None else points, (2, 2, 2)), 'trilinear')


def angles(angle):
    if angle is None:
        return 0.0, 2 * np.pi
    if isinstance(angle, (tuple, list)):
        a, b = angle
        return (0.0 if a is None else float(a)), (2 * np.pi if b is None else float(b))
    return 0.0, float(angle)


def arc_spans(sweep):
    s = abs(sweep)
    return 1 if s <= np.pi / 2 else 2 if s <= np.pi else 3 if s <= 3 * np.pi / 2 else 4


def arc_angle(start, end, spans, v):
    """Angle of the piecewise quadratic rational arc over [0,1]."""
    v = np.asarray(v, L)
    al = (L(end) - L(start)) / (2 * spans)
    i = np.clip(np.floor(v * spans), 0, spans - 1)
    t = v * spans - i
    y = np.sin(al) * (t * t - (1 - t) ** 2)
    x = np.cos(al) * (t * t + (1 - t) ** 2) + 2 * t * (1 - t)
    return L(start) + al * (2 * i + 1) + np.arctan2(y, x)


def j_circle(c, ret, radius=1, center=None, angle=None):
    what = 'circle'
    post = geo(c, ret, what)
    c.check(post.dim == 1 and post.domain(0) == (0, 1), what + ': parametrization')
    start, end = angles(angle)
    sweep = end - start
    cen = np.zeros(3)
    if center is not None:
        x = np.asarray(center, 'd').ravel()
        cen[:x.size] = x
    R = abs(float(radius))
    br = np.unique(post.knots[0])
    u = ref.samples(2, post.knots[0], c.rng, 6)
    V, E = ev(c, ret, post, [u], what)
    D = V - cen
    S = R + np.max(np.abs(cen)) + R * (abs(start) + abs(end))
    c.near(np.sqrt(np.sum(D * D, -1)), R + 0 * u, S + 0 * u, what + ': distance from the center', K=64)
    c.near(V[..., 2], cen[2] + 0 * u, S + 0 * u, what + ': plane', K=64)
    sg = np.sign(radius)
    e = np.array([[np.cos(L(a)), np.sin(L(a))] for a in (start, end)]) * L(float(radius))
    c.near(D[[0, -1], :2], e, S + 0 * e, what + ': ends of the arc', K=64)
    # the angle advances strictly, in the right sense, and covers the sweep
    dx, dy = D[..., 0] * sg, D[..., 1] * sg
    cr = dx[:-1] * dy[1:] - dx[1:] * dy[:-1]
    dt = dx[:-1] * dx[1:] + dy[:-1] * dy[1:]
    st = np.arctan2(cr, dt)
    fine = np.diff(u) > 1e-6
    slack = 64 * EPS * S / R
    c.check(np.all(st[fine] * np.sign(sweep) > -slack), what + ': the angle is not monotone', steps=st, sweep=sweep)
    c.near(np.sum(st), L(end) - L(start), L(S / R * (len(u) + 8)), what + ': angle covered', K=64)
    # equal parameter steps between breaks cover equal angles, symmetrically
    n = len(br) - 1
    m = np.unique(np.concatenate([br, (br[1:] + br[:-1]) / 2]))
    Vm, _ = post.eval([m])
    a = L(start) + (L(end) - L(start)) * m.astype(L)
    w = cen[:2] + L(float(radius)) * np.stack([np.cos(a), np.sin(a)], -1)
    c.near(Vm[..., :2], w, S + 0 * w, what + ': angles at the breaks', K=256)
    c.ev('circle')
    c.ev('circle:spans%d' % n)


def j_grid(c, ret, shape, degree=2, continuity=None, limits=(0.0, 1.0), wrap=False):
    what = 'grid'
    post = geo(c, ret, what)
    N = np.atleast_1d(np.asarray(shape, int))
    dim = len(N)
    deg = np.broadcast_to(np.asarray(degree, int), (dim,))
    C = np.broadcast_to(np.asarray(deg - 1 if continuity is None else continuity, int), (dim,))
    C = np.where(C < 0, C + deg, C)
    lim = np.broadcast_to(np.asarray(limits, 'd'), (dim, 2))
    wr = np.broadcast_to(np.asarray(wrap, bool), (dim,))
    c.check(post.dim == dim, what + ': dimension')
    c.check(post.degree == tuple(deg), what + ': degree', got=post.degree, want=deg)
    for i in range(dim):
        a, b = lim[i]
        p, U = post.degree[i], post.knots[i]
        c.check(post.domain(i) == (a, b), what + ': limits', got=post.domain(i), want=(a, b))
        br, m = np.unique(U[p + 1:-p - 1], return_counts=True)
        c.check(len(br) == N[i] - 1, what + ': number of elements', got=len(br) + 1, want=N[i])
        w = L(a) + (L(b) - L(a)) * np.arange(1, N[i]) / N[i]
        c.near(br, w, abs(a) + abs(b) + 0 * w, what + ': elements', K=16)
        c.same(m, 0 * m + (p - C[i]), what + ': continuity')
        if wr[i]:
            n = len(U) - p - 2
            want = clamped = judge.clamped_knots(p, U, True, True).astype(L)
            for k in range(C[i] + 1):
                want[C[i] - k] = clamped[p] - clamped[n + 1] + clamped[n - k]
                want[len(U) - 1 - C[i] + k] = clamped[n + 1] - clamped[p] + clamped[p + 1 + k]
            c.near(U, want, abs(a) + abs(b) + 2 * (b - a) + 0 * want, what + ': wrapped knots', K=16)
            c.ev('grid:wrapped')
        else:
            c.check(np.all(U[:p + 1] == a) and np.all(U[-p - 1:] == b), what + ': ends are not clamped')
    uvw = grid_for(post, c.rng)
    V, E = ev(c, ret, post, uvw, what)
    for i in range(3):
        w = 0 * V[..., 0]
        if i < dim:
            w = w + uvw[i].reshape([-1 if j == i else 1 for j in range(dim)])
        c.near(V[..., i], w, E[..., i] + (np.max(np.abs(post.knots[i])) if i < dim else 0),
               what + ': not the identity map', K=64)
    c.ev(what)


# ---------------------------------------------------------------- sweeps

def strip(o):
    return Obj(o.knots, o.array[..., :4])


def head_knots(c, post, knots, what):
    c.check(post.dim == len(knots) + 1, what + ': dimension', got=post.dim)
    for i, U in enumerate(knots):
        c.same(post.knots[i], U, what + ': knots of the profile')


def j_extrude(c, ret, nrb, displ, axis=None):
    what = 'extrude'
    post = geo(c, ret, what)
    head_knots(c, post, nrb.knots, what)
    c.check(post.degree[-1] == 1 and post.domain(-1) == (0, 1), what + ': the new axis')
    d = m_translate(displ, axis)[:3, 3].astype(L)
    uvw = grid_for(strip(nrb), c.rng)
    t = np.unique(np.concatenate([[0, .5, 1], c.rng.random(2)]))
    V, E = strip(nrb).eval(uvw)
    W, E2 = ev(c, ret, post, uvw + [t], what)
    want = V[..., None, :] + t.astype(L)[:, None] * d
    c.near(W, want, E[..., None, :] + E2 + np.abs(d), what + ': C(u) + t*displ', K=KE)
    c.ev(what)
    c.ev('extrude:dim%d' % nrb.dim)


def j_revolve(c, ret, nrb, point, axis=2, angle=None):
    what = 'revolve'
    post = geo(c, ret, what)
    head_knots(c, post, nrb.knots, what)
    p = np.zeros(3)
    x = np.asarray(point, 'd').ravel()
    p[:x.size] = x
    start, end = angles(angle)
    n = arc_spans(end - start)
    c.check(post.domain(-1) == (0, 1), what + ': the new axis')
    uvw = grid_for(strip(nrb), c.rng, limit=400)
    v = np.unique(np.concatenate([np.arange(2 * n + 1) / (2.0 * n), c.rng.random(4)]))
    br = np.unique(post.knots[-1])
    if len(br) != n + 1 and min(abs(abs(end - start) - k * np.pi / 2) for k in range(1, 5)) < 1e-9:
        n = len(br) - 1          # a sweep of k quarters to rounding
    th = arc_angle(start, end, n, v)
    V, E = strip(nrb).eval(uvw)
    W, E2 = ev(c, ret, post, uvw + [v], what)
    want = np.zeros(W.shape, L)
    # the rotation by each angle, kept in extended precision
    for k, a in enumerate(th):
        want[..., k, :] = (V - p) @ rodrigues(a, axis).T + p
    size = np.sum(E, -1) + np.sum(np.abs(p))
    tol = size[..., None, None] * (1 + abs(start) + abs(end)) + np.max(E2, -1, keepdims=True) + 0 * want
    c.near(W, want, tol, what + ': not the rotated profile', K=KE)
    c.ev(what)
    c.ev('revolve:dim%d' % nrb.dim)


def rodrigues(a, axis):
    k = np.zeros(3, L)
    ax = np.asarray(axis)
    if ax.ndim == 0:
        k[(0, 1, 2)[int(ax)]] = 1
    else:
        k[:ax.size] = ax
        k = k / np.max(np.abs(k))
        k = k / np.sqrt(np.sum(k * k))
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]], L)
    return np.eye(3, dtype=L) + np.sin(L(a)) * K + (1 - np.cos(L(a))) * (K @ K)


def j_sweep(c, ret, section, trajectory):
    what = 'sweep'
    post = geo(c, ret, what)
    head_knots(c, post, section.knots, what)
    c.same(post.knots[-1], trajectory.knots[0], what + ': knots of the trajectory')
    uvw = grid_for(strip(section), c.rng, limit=300)
    v = grid_for(strip(trajectory), c.rng, limit=40)
    A, EA = strip(section).eval(uvw)
    B, EB = strip(trajectory).eval(v)
    W, E2 = ev(c, ret, post, uvw + v, what)
    c.near(W, A[..., None, :] + B, EA[..., None, :] + EB + E2, what + ': S(u) + T(v)', K=KE)
    c.ev(what)
    c.ev('sweep:dim%d' % section.dim)


# ---------------------------------------------------------------- combinations

def gain(objs, axes=None):
    """Tolerance factor of constructions that raise degrees (see j_elevate)."""
    s = 1.0
    for o in objs:
        for i in range(o.dim):
            if axes is None or i in axes:
                s = max(s, spread(o.degree[i], o.knots[i]) ** o.degree[i] / 1e3)
    return KO * min(1e5, s)


def j_compat(c, ret, *nurbs, axes=None):
    what = 'compat'
    if len(nurbs) == 1 and not isinstance(nurbs[0], Obj):
        nurbs = tuple(nurbs[0])
    c.check(len(ret) == len(nurbs), what + ': number of results')
    dim = nurbs[0].dim
    axes = list(range(dim)) if axes is None else [range(dim)[i] for i in np.atleast_1d(axes)]
    if len(nurbs) < 2:
        axes = []
    K = gain(nurbs, axes)
    first = Obj.of(ret[0])
    for o, r in zip(nurbs, ret):
        q = Obj.of(r)
        valid(c, q, what)
        c.check(q.array.shape[-1] == o.array.shape[-1], what + ': number of fields')
        uvw, m = [], []
        slope = 0
        for i in range(dim):
            if i in axes:
                dom = (min(x.domain(i)[0] for x in nurbs), max(x.domain(i)[1] for x in nurbs))
                c.check(q.domain(i) == dom, what + ': domain', got=q.domain(i), want=dom)
                c.check(q.degree[i] == max(x.degree[i] for x in nurbs), what + ': degree', got=q.degree)
                c.same(q.knots[i], first.knots[i], what + ': knots are not shared')
                u = ref.samples(q.degree[i], q.knots[i], c.rng, 1)
                m.append(affine(u, dom, o.domain(i)))
                slope = slope + judge.slope(o, i) * (np.sum(np.abs(o.domain(i))) +
                                                     np.max(np.abs(o.knots[i])))
            else:
                c.same(q.knots[i], o.knots[i], what + ': knots of another axis')
                u = ref.samples(q.degree[i], q.knots[i], c.rng, 1)
                m.append(u)
            uvw.append(u)
        uvw, m = trim(uvw, m)
        V, E = o.eval(m)
        W, E2 = q.eval(uvw)
        c.near(W, V, E + E2 + slope, what + ': geometry or fields', K=K)
        c.near(code_points(r, uvw), V, E + E2 + slope, what + ': evaluates differently', K=K)
        c.ev('construction-points', V[..., 0].size)
    for i in axes:
        sparse(c, what, first, nurbs, i)
    c.ev(what)
    c.ev('compat:objects', len(nurbs))


def sparse(c, what, post, nurbs, i):
    """No interior knot is there that no input has, or more often than the
    least smooth of the inputs needs it."""
    p, (a, b) = post.degree[i], post.domain(i)
    U = post.knots[i]
    eps = 1e-10 * (b - a + abs(a) + abs(b))
    near = []
    for o in nurbs:
        u = affine(np.unique(o.knots[i]), o.domain(i), (a, b))
        n = [np.sum(o.knots[i] == x) + p - o.degree[i] for x in np.unique(o.knots[i])]
        near += list(zip(u, n, [4 * eps + 8 * EPS * np.max(np.abs(o.knots[i])) * (b - a) / (o.domain(i)[1] - o.domain(i)[0])] * len(u)))
    for x in np.unique(U[(U > a) & (U < b)]):
        want = [n for u, n, e in near if abs(u - x) <= e]
        got = int(np.sum(U == x))
        c.check(want and got <= max(want), what + ': a knot that no input has', axis=i, knot=x, times=got, needed=want[:6])
        c.ev('compat:knots')


def trim(uvw, m, limit=1500):
    uvw, m = list(uvw), list(m)
    while np.prod([len(u) for u in uvw]) > limit:
        i = int(np.argmax([len(u) for u in uvw]))
        keep = np.ones(len(uvw[i]), bool)
        keep[1:-1:3] = False
        uvw[i], m[i] = uvw[i][keep], m[i][keep]
    return uvw, m


def j_ruled(c, ret, nrb1, nrb2):
    what = 'ruled'
    post = geo(c, ret, what)
    a, b = strip(nrb1), strip(nrb2)
    c.check(post.dim == a.dim + 1, what + ': dimension')
    c.check(post.degree[-1] == 1 and post.domain(-1) == (0, 1), what + ': the new axis')
    uvw, ma, mb = [], [], []
    sl = 0
    for i in range(a.dim):
        dom = (min(a.domain(i)[0], b.domain(i)[0]), max(a.domain(i)[1], b.domain(i)[1]))
        c.check(post.domain(i) == dom, what + ': domain', got=post.domain(i), want=dom)
        u = ref.samples(post.degree[i], post.knots[i], c.rng, 1)
        uvw.append(u)
        ma.append(affine(u, dom, a.domain(i)))
        mb.append(affine(u, dom, b.domain(i)))
        for o in (a, b):
            sl = sl + np.max(hslope(o, i)) * (np.sum(np.abs(o.domain(i))) + np.max(np.abs(o.knots[i])))
    _, ma = trim(uvw, ma)
    uvw, mb = trim(uvw, mb)
    t = np.array([0, .25, .5, 1, c.rng.random()])
    t.sort()
    A, SA = a.homog(ma)
    B, SB = b.homog(mb)
    tt = t.astype(L)[:, None]
    H = (1 - tt) * A[..., None, :] + tt * B[..., None, :]
    S = (1 - tt) * SA[..., None, :] + tt * SB[..., None, :] + sl
    want = H[..., :3] / H[..., 3:]
    tol = S[..., :3] / H[..., 3:] + np.abs(want) * S[..., 3:] / H[..., 3:]
    W, E2 = ev(c, ret, post, uvw + [t], what)
    c.near(W, want, tol + E2, what + ': not the linear combination', K=gain([a, b]))
    c.ev(what)
    c.ev('ruled:dim%d' % a.dim)


def hslope(o, ax):
    """Bound of the derivative of the homogeneous coordinates."""
    p, U = o.degree[ax], o.knots[ax].astype(L)
    A = np.moveaxis(o.array[..., :4].astype(L), ax, 0)
    d = U[p + 1:len(U) - 1] - U[1:len(U) - p - 1]
    d = np.where(d > 0, d, np.inf)
    return p * np.abs(np.diff(A, axis=0)) / d.reshape((-1,) + (1,) * (A.ndim - 1))


def j_coons(c, ret, curves):
    what = 'coons'
    (C00, C01), (C10, C11) = [[strip(x) for x in r] for r in curves]
    # the weights of a Boolean sum need not be positive inside
    post = geo(c, ret, what, False)
    c.check(post.dim == 2, what + ': dimension')
    K = gain([C00, C01, C10, C11])
    size = max(np.max(np.abs(o.coords())) for o in (C00, C01, C10, C11)) * \
        max(o.wratio() for o in (C00, C01, C10, C11))
    ends = []
    for ax, pair in ((1, (C00, C01)), (0, (C10, C11))):
        dom = post.domain(ax)
        u = ref.samples(post.degree[ax], post.knots[ax], c.rng, 1)
        for s, o in enumerate(pair):
            V, E = o.eval([affine(u, dom, o.domain(0))])
            uvw = [None, None]
            uvw[ax] = u
            uvw[1 - ax] = np.array([post.domain(1 - ax)[s]])
            W, E2 = ev(c, ret, post, uvw, what)
            sl = judge.slope(o, 0) * (np.sum(np.abs(o.domain(0))) + np.max(np.abs(o.knots[0])))
            c.near(np.squeeze(W, 1 - ax), V, E + np.squeeze(E2, 1 - ax) + sl[:3] + size,
                   what + ': boundary is not the given curve', K=K)
    straight = all(o.degree == (1,) and o.shape == (2,) for o in (C00, C01, C10, C11))
    if straight:
        H = np.stack([C00.array, C01.array])
        u = [np.linspace(*post.domain(i), 5) for i in range(2)]
        mats = [np.stack([1 - x, x], 1) for x in [np.linspace(0, 1, 5).astype(L)] * 2]
        V = ref.contract(H.astype(L), mats)
        V = V[..., :3] / V[..., 3:]
        W, E = post.eval(u)
        c.near(W, V, E + size, what + ': not the bilinear patch of straight lines', K=K)
        c.ev('coons:bilinear')
    c.ev(what)


def j_join(c, ret, nrb1, nrb2, axis):
    what = 'join'
    a, b = nrb1, nrb2
    dim = a.dim
    post = Obj.of(ret)
    valid(c, post, what)
    c.check(post.dim == dim, what + ': dimension')
    c.check(post.array.shape[-1] == a.array.shape[-1], what + ': number of fields')
    a0, a1 = a.domain(axis)
    b0, b1 = b.domain(axis)
    got = post.domain(axis)
    c.check(got[0] == a0, what + ': start of the domain', got=got, want=a0)
    end = L(a1) + (L(b1) - L(b0))
    c.near(got[1], end, L(abs(a1) + abs(b1) + abs(b0)), what + ': end of the domain', K=8)
    degs = max(a.degree[axis], b.degree[axis])
    c.check(post.degree[axis] == degs, what + ': degree', got=post.degree)
    K = gain([a, b])
    # ends that meet only to rounding leave their mean behind
    ends = [o.eval([np.array([e]) if i == axis else np.linspace(*o.domain(i), 2 * max(a.shape[i], b.shape[i]) + 3)
                    for i in range(dim)])[0] for o, e in ((a, a1), (b, b0))]
    mismatch = 8 * np.max(np.abs(ends[0] - ends[1]))
    for o, lo, hi, olo, ohi in ((a, a0, a1, a0, a1), (b, a1, got[1], b0, b1)):
        uvw, m = [], []
        sl = 0
        for i in range(dim):
            if i == axis:
                p, U = post.degree[i], post.knots[i]
                u = ref.samples(p, U, c.rng, 2)
                u = np.unique(np.concatenate([u[(u >= lo) & (u <= hi)], [lo, hi]]))
                m.append(affine(u, (lo, hi), (olo, ohi)))
            else:
                dom = (min(a.domain(i)[0], b.domain(i)[0]), max(a.domain(i)[1], b.domain(i)[1]))
                c.check(post.domain(i) == dom, what + ': domain of another axis')
                u = ref.samples(post.degree[i], post.knots[i], c.rng, 1)
                m.append(affine(u, dom, o.domain(i)))
            sl = sl + judge.slope(o, i) * (np.sum(np.abs(o.domain(i))) + np.max(np.abs(o.knots[i])) +
                                           abs(lo) + abs(hi))
            uvw.append(u)
        uvw, m = trim(uvw, m)
        V, E = o.eval(m)
        W, E2 = post.eval(uvw)
        # the common knot is taken off within the default deviation, 1e-9
        slack = (1.5e-9 * degs + mismatch) / (K * EPS)
        c.near(W, V, E + E2 + sl + slack, what + ': geometry or fields', K=K)
        c.near(code_points(ret, uvw), V, E + E2 + sl + slack, what + ': evaluates differently', K=K)
        c.ev('construction-points', V[..., 0].size)
    c.ev(what)
    c.ev('join:dim%d' % dim)


def j_refine(c, ret, nrb, factor=None, degree=None, continuity=None):
    what = 'cad.refine'
    pre = nrb
    post = Obj.of(ret)
    valid(c, post, what)
    dim = pre.dim

    def arg(x, default):
        if x is None:
            return list(default)
        if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim):
            x = list(x)
        else:
            x = [x] * dim
        return [d if y is None else y for y, d in zip(x, default)]
    deg = arg(degree, pre.degree)
    fac = arg(factor, [1] * dim)
    con = arg(continuity, [-1] * dim)
    K = KO
    for ax in range(dim):
        p0, U0 = pre.degree[ax], pre.knots[ax]
        p = max(int(deg[ax]), p0)
        a, b = pre.domain(ax)
        C = int(con[ax])
        C = C + p if C < 0 else C
        c.check(post.degree[ax] == p, what + ': degree', axis=ax, got=post.degree[ax], want=p)
        c.check(post.domain(ax) == (a, b), what + ': domain', got=post.domain(ax))
        br, m0 = np.unique(U0[(U0 > a) & (U0 < b)], return_counts=True)
        old = np.concatenate([[a], br, [b]])
        n = np.asarray(fac[ax], int)
        n = np.broadcast_to(n, (len(old) - 1,))
        want, mult = [], []
        for i in range(len(old) - 1):
            if i:
                want.append(L(old[i]))
                mult.append(max(int(m0[i - 1]) + p - p0, p - C))
            for k in range(1, n[i]):
                want.append(L(old[i]) + (L(old[i + 1]) - L(old[i])) * k / int(n[i]))
                mult.append(p - C)
        V = post.knots[ax]
        g, gm = np.unique(V[(V > a) & (V < b)], return_counts=True)
        c.check(len(g) == len(want), what + ': number of elements', axis=ax, got=len(g) + 1, want=len(want) + 1)
        if len(want):
            c.near(g, np.array(want, L), abs(a) + abs(b) + np.zeros(len(g)), what + ': breaks', K=16, axis=ax)
            c.same(gm, np.array(mult), what + ': multiplicities (continuity)', axis=ax)
        for x in br:
            c.check(x in g, what + ': an old break is gone', axis=ax, value=x)
        c.check(np.all(V[:p + 1] == a) and np.all(V[-p - 1:] == b), what + ': ends', axis=ax)
        if p > p0:
            K = max(K, gain([pre], [ax]))
            c.ev('cad.refine:elevated')
        c.ev('cad.refine:elements', len(want) + 1)
    judge.same_map(c, pre, ret, what, K=K)
    c.ev(what)


FUNCS = dict(line=j_line, circle=j_circle, linear=j_linear, bilinear=j_bilinear, trilinear=j_trilinear,
             grid=j_grid, compat=j_compat, extrude=j_extrude, revolve=j_revolve, ruled=j_ruled,
             sweep=j_sweep, coons=j_coons, join=j_join, refine=j_refine)


def snap(x, found):
    """The argument with every NURBS replaced by its snapshot."""
    if isinstance(x, NURBS):
        o = Obj.of(x)
        found.append((x, o))
        return o
    if isinstance(x, (list, tuple)):
        return type(x)(snap(y, found) for y in x)
    if isinstance(x, np.ndarray):
        y = x.copy() if x.dtype != object else copy.deepcopy(x)
        found.append((x, y))
        return y
    return x


def unchanged(c, found, what):
    for x, o in found:
        if isinstance(x, NURBS):
            judge.untouched(c, o, x, what + ' (argument)')
        elif x.dtype == object:
            c.check(repr(x) == repr(o), what + ': changed an array it was given', got=x, want=o)
        else:
            c.same(x, o, what + ': changed an array it was given')


def check_result(c, name, ret, found, args, kw):
    unchanged(c, found, name)
    b = inspect.Signature(list(inspect.signature(FUNCS[name]).parameters.values())[2:]).bind(*args, **kw)
    FUNCS[name](c, ret, *b.args, **b.kwargs)


def call(c, name, *args, **kw):
    """One call of a construction function under its monitor."""
    found = []
    a = [snap(x, found) for x in args]
    k = {n: snap(x, found) for n, x in kw.items()}
    ret = getattr(cad, name)(*args, **kw)
    for r in ret if isinstance(ret, tuple) else [ret]:
        if isinstance(r, NURBS):
            c.observe(name, r.array, r.knots)
    check_result(c, name, ret, found, a, k)
    return ret


_tls = threading.local()


def attach(sink):
    """Monitor every outermost call of a construction function, whoever makes it."""
    for name in FUNCS:
        orig = getattr(cad, name)

        def make(orig, name):
            def function(*args, **kw):
                c = None if getattr(_tls, 'depth', 0) else sink('cad.' + name)
                if c is None:
                    return orig(*args, **kw)
                found = []
                a = [snap(x, found) for x in args]
                k = {n: snap(x, found) for n, x in kw.items()}
                _tls.depth = 1
                try:
                    ret = orig(*args, **kw)
                    check_result(c, name, ret, found, a, k)
                finally:
                    _tls.depth = 0
                return ret
            function.__name__ = name
            function.__doc__ = orig.__doc__
            return function
        setattr(cad, name, make(orig, name))
