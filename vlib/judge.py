"""Monitors: what one call of a public operation may do.

Every judge gets the snapshot taken before the call, the bound arguments, the
receiver and the returned object, and compares with the reference semantics of
vlib.ref.  None of them looks at how the operation is implemented.

call(c, obj, name, ...)  performs one call under its monitor;
attach(make_case)        puts the monitors on the NURBS class and the cad
                         module, so that any workload (the repository's own
                         tests and demos included) runs under them."""
import inspect, threading
import numpy as np
from . import ref
from .ref import Obj, L, EPS, samples

KE = 2000.0         # direct evaluation, units of eps*(magnitude summed)
KO = 1e6            # objects rebuilt by an operation


# ---------------------------------------------------------------- geometry

def grid_for(pre, rng=None, per=2, extra=None, limit=1200):
    """Parameters covering every span, break and end of every axis."""
    out = []
    for ax in range(pre.dim):
        u = samples(pre.degree[ax], pre.knots[ax], rng, per)
        if extra and ax in extra:
            a, b = pre.domain(ax)
            e = [x for x in extra[ax] if a <= x <= b]
            u = np.unique(np.concatenate([u, e]))
        out.append(u)
    while np.prod([len(u) for u in out]) > limit:
        i = int(np.argmax([len(u) for u in out]))
        keep = np.ones(len(out[i]), bool)
        keep[1:-1:3] = False
        if keep.all():
            break
        out[i] = out[i][keep]
    return out


def near_values(v):
    return [v, np.nextafter(v, -np.inf), np.nextafter(v, np.inf)]


def valid(c, obj, what):
    v = obj.valid()
    if v:
        c.fail('%s: result is not a valid object: %s' % (what, v),
               knots=obj.knots, shape=obj.shape, degree=obj.degree)


def code_points(nrb, uvw):
    """Everything the code itself evaluates at a tensor grid: x,y,z,fields."""
    if nrb.array.shape[-1] > 4:
        C, F = nrb(*uvw, fields=True)
        return np.concatenate([C, F], axis=-1)
    return nrb(*uvw)


def same_map(c, pre, nrb, what, extra=None, K=KO, uvw=None, cond=None, code=True):
    """nrb must be the map that the snapshot was, with the same domain."""
    post = Obj.of(nrb)
    valid(c, post, what)
    if post.dim != pre.dim:
        c.fail(what + ': dimension changed')
    for ax in range(pre.dim):
        if pre.domain(ax) != post.domain(ax):
            c.fail(what + ': domain changed', axis=ax, before=pre.domain(ax), after=post.domain(ax))
    if pre.array.shape[-1] != post.array.shape[-1]:
        c.fail(what + ': number of fields changed')
    uvw = uvw or grid_for(pre, c.rng, extra=extra)
    V, E = pre.eval(uvw)
    V2, E2 = post.eval(uvw)
    S = E + E2
    # new coefficients carry the rounding errors of their neighbours, which may be much larger
    A = np.abs(pre.array)
    S = S + 64 / K * np.delete(A.max(tuple(range(pre.dim))), 3) / A[..., 3].min()
    if cond is not None:
        S = S + cond
    c.near(V2, V, S, what + ': geometry or fields changed', K=K)
    if code:
        c.near(code_points(nrb, uvw), V, S, what + ': evaluates differently afterwards', K=K)
    c.ev('geometry-points-compared', V[..., 0].size)
    return post


def same_knots(c, post, want, what):
    for ax, (a, b) in enumerate(zip(post.knots, want)):
        if a.shape != np.shape(b) or not np.array_equal(a, b):
            c.fail(what + ': knot vector', axis=ax, got=a, want=np.asarray(b))


def untouched(c, pre, nrb, what):
    post = Obj.of(nrb)
    same_knots(c, post, pre.knots, what)
    c.same(post.array, pre.array, what + ': control data')


def axis_of(pre, axis):
    return range(pre.dim)[axis]


def merged(U, v):
    return np.sort(np.concatenate([U, np.asarray(v, 'd').ravel()]))


def unclamped_end(pre, ax, values):
    """The mechanism of known finding C03-END: inserting at a domain end whose
    knot is not repeated p times."""
    p, U = pre.degree[ax], pre.knots[ax]
    a, b = pre.domain(ax)
    values = np.asarray(values, 'd').ravel()
    return bool((np.any(values == a) and np.sum(U == a) < p) or
                (np.any(values == b) and np.sum(U == b) < p))


# ---------------------------------------------------------------- refinement

def j_insert(c, pre, nrb, ret, axis, value, times=1):
    what = 'insert'
    c.check(ret is nrb, what + ' did not return the object')
    ax = axis_of(pre, axis)
    p, U = pre.degree[ax], pre.knots[ax]
    mult = int(np.sum(U == value))
    if times is None:
        times = p - min(mult, p)
    if times == 0:
        return untouched(c, pre, nrb, what + ' of nothing')
    if unclamped_end(pre, ax, value):
        c.ev('insert-at-unclamped-end')
        return end_finding(c, pre, nrb, ax, merged(U, [value] * times), what)
    want = list(pre.knots)
    want[ax] = merged(U, [value] * times)
    same_knots(c, Obj.of(nrb), want, what)
    c.ev('insert:mult%d' % min(mult, 3))
    same_map(c, pre, nrb, what, {ax: near_values(value)})
    c.ev('insert')


def end_finding(c, pre, nrb, ax, want, what):
    """Known finding: only the knots are judged, and a wrong or non-finite
    result is reported under the finding's key."""
    k = list(pre.knots)
    k[ax] = want
    post = Obj.of(nrb)
    same_knots(c, post, k, what)
    uvw = grid_for(pre, None)
    V, E = pre.eval(uvw)
    got = code_points(nrb, uvw)
    if got.shape != V.shape or not np.all(np.abs(got - V) <= KO * EPS * E):
        c.known('C03-END', what + ' of a knot at the end of the domain of an unclamped axis'
                ' leaves an object that is wrong or NaN at that end')


def j_refine(c, pre, nrb, ret, axis, values):
    what = 'refine'
    c.check(ret is nrb, what + ' did not return the object')
    if values is None or np.size(values) == 0:
        return untouched(c, pre, nrb, what + ' with nothing')
    ax = axis_of(pre, axis)
    v = np.asarray(values, 'd').ravel()
    if unclamped_end(pre, ax, v):
        return end_finding(c, pre, nrb, ax, merged(pre.knots[ax], v), what)
    want = list(pre.knots)
    want[ax] = merged(pre.knots[ax], v)
    same_knots(c, Obj.of(nrb), want, what)
    extra = [x for y in np.unique(v)[:6] for x in near_values(y)]
    same_map(c, pre, nrb, what, {ax: extra})
    c.ev('refine')
    c.ev('refine:knots-inserted', v.size)


def elevated_knots(p, U, t):
    a, b = U[p], U[-p - 1]
    u, s = np.unique(U[(U > a) & (U < b)], return_counts=True)
    return np.concatenate([np.full(p + t + 1, a), np.repeat(u, s + t), np.full(p + t + 1, b)])


def spread(p, U):
    d = np.diff(np.unique(U))
    r = d[1:] / d[:-1]
    return float(max(1.0, np.max(r, initial=1), np.max(1 / r, initial=1)))


def j_elevate(c, pre, nrb, ret, axis, times=1):
    what = 'elevate'
    c.check(ret is nrb, what + ' did not return the object')
    t = 0 if times is None else int(times)
    if t == 0:
        return untouched(c, pre, nrb, what + ' by nothing')
    ax = axis_of(pre, axis)
    p, U = pre.degree[ax], pre.knots[ax]
    post = Obj.of(nrb)
    want = list(pre.knots)
    want[ax] = elevated_knots(p, U, t)
    if U[0] < U[p] or U[-1] > U[-p - 1]:
        c.ev('elevate:unclamped')
    valid(c, post, what)
    if post.degree[ax] != p + t:
        c.fail(what + ': degree', got=post.degree, want=p + t)
    same_knots(c, post, want, what)
    # raising the degree takes knots off again: its conditioning grows with the
    # ratio of neighbouring spans, to the power of the degree
    K = KO * min(1e5, max(1.0, spread(p, U) ** p / 1e3))
    if p >= 7 and len(np.unique(U[p:len(U) - p])) > 3:
        return elevation_finding(c, pre, nrb, p)
    same_map(c, pre, nrb, what, K=K)
    c.ev('elevate')


def elevation_finding(c, pre, nrb, p):
    """Known finding C04-COND: rounding errors grow from span to span when the
    degree is at least seven.  Only knots and evaluation are judged."""
    uvw = grid_for(pre, None)
    V, E = pre.eval(uvw)
    V2, E2 = Obj.of(nrb).eval(uvw)
    if not np.all(np.abs(V2 - V) <= KO * EPS * (E + E2)):
        c.known('C04-COND', 'elevate() of an axis of degree 7 or more with several spans is numerically '
                'unstable: the geometry changes by far more than rounding')
    got = code_points(nrb, uvw)
    c.near(got, V2, E2, 'elevate: evaluates differently afterwards', K=KO)
    c.ev('elevate:degree7+,many spans')


def j_remove(c, pre, nrb, ret, axis, value, times=1, deviation=1.0e-9):
    what = 'remove'
    c.check(ret is nrb, what + ' did not return the object')
    ax = axis_of(pre, axis)
    p, U = pre.degree[ax], pre.knots[ax]
    a, b = pre.domain(ax)
    mult = min(int(np.sum(U == value)), p)
    t = mult if times is None else min(times, mult)
    post = Obj.of(nrb)
    k = pre.shape[ax] - post.shape[ax]
    if t <= 0 or value <= a or value >= b or k == 0:
        c.ev('remove:kept')
        return untouched(c, pre, nrb, what + ' of nothing')
    if not 0 <= k <= t:
        c.fail(what + ': number of removed knots', got=k, most=t)
    i = np.searchsorted(U, value)
    want = list(pre.knots)
    want[ax] = np.delete(U, slice(i, i + k))
    same_knots(c, post, want, what)
    valid(c, post, what)
    uvw = grid_for(pre, c.rng, per=4, extra={ax: near_values(value)})
    V, E = pre.eval(uvw)
    V2, E2 = post.eval(uvw)
    dist = np.sqrt(np.sum((V - V2) ** 2, axis=-1))
    tol = deviation * k * 1.5 + 1e5 * EPS * np.max(E + E2)
    w = pre.array[..., 3]
    room = deviation / (1 + np.max(np.sqrt(np.sum((np.delete(pre.array, 3, -1) / w[..., None]) ** 2, -1))))
    if room > .3 and np.min(w) < np.max(w) and not np.all(dist <= tol):
        # known finding C05-DEV: nothing keeps the weights from changing by all of their size
        if room >= 1 or np.all(dist <= tol / (1 - min(1, room * k))):
            if c.prop == 'C05':
                c.known('C05-DEV', 'remove() with a deviation of the size of a rational object moves it farther than that')
            return c.ev('remove:deviation-too-large')
    if not np.all(dist <= tol):
        c.fail(what + ': moved by more than the deviation allowed', moved=float(np.nanmax(dist)),
               deviation=deviation, removed=k, nan=bool(np.any(np.isnan(dist))))
    c.near(code_points(nrb, uvw), V2, E2, what + ': evaluates differently', K=KO)
    c.ev('remove:removed', k)


def clamped_knots(p, U, left, right):
    U = U.copy()
    if left:
        U[:p] = U[p]
    if right:
        U[-p:] = U[-p - 1]
    return U


def j_clamp(c, pre, nrb, ret, axis, side=None):
    what = 'clamp'
    c.check(ret is nrb, what + ' did not return the object')
    ax = axis_of(pre, axis)
    p, U = pre.degree[ax], pre.knots[ax]
    want = list(pre.knots)
    want[ax] = clamped_knots(p, U, side in (None, 0), side in (None, 1))
    same_knots(c, Obj.of(nrb), want, what)
    post = same_map(c, pre, nrb, what)
    c.ev('clamp:changed' if not np.array_equal(U, want[ax]) else 'clamp:same')
    # at a clamped end the object interpolates its first/last control point
    for s in ((0, 1) if side is None else (side,)):
        uvw = grid_for(pre, None)
        uvw[ax] = np.array([pre.domain(ax)[s]])
        H, M = pre.homog(uvw)
        idx = [slice(None)] * pre.dim
        idx[ax] = slice(0, 1) if s == 0 else slice(-1, None)
        sub = post.array[tuple(idx)].astype(L)
        mats = [ref.basis(post.degree[i], post.knots[i], uvw[i])[0] if i != ax else
                np.ones((1, 1), L) for i in range(pre.dim)]
        c.near(ref.contract(sub, mats), H, M, what + ': end control points', K=KO)


def j_unclamp(c, pre, nrb, ret, axis, side=None, continuity=None):
    what = 'unclamp'
    c.check(ret is nrb, what + ' did not return the object')
    ax = axis_of(pre, axis)
    p, U = pre.degree[ax], pre.knots[ax]
    C = p - 1 if continuity is None else int(continuity)
    lo, hi = side in (None, 0), side in (None, 1)
    post = Obj.of(nrb)
    if len(post.knots[ax]) != len(U):
        c.fail(what + ': number of knots')
    W = clamped_knots(p, U, lo, hi)
    n = len(U) - p - 2
    G = post.knots[ax]
    want = W.astype(L)
    if lo:
        for i in range(C + 1):
            want[C - i] = want[p] - want[n + 1] + want[n - i]
    if hi:
        m = n + p + 1
        for i in range(C + 1):
            want[m - C + i] = want[n + 1] - want[p] + want[p + i + 1]
    scale = np.max(np.abs(want)) * (p + 1)
    c.near(G, want, scale, what + ': knots', K=8)
    c.same(G[p:n + 2], U[p:n + 2], what + ': knots inside of the domain')
    k = list(pre.knots)
    k[ax] = G
    same_knots(c, post, k, what)
    same_map(c, pre, nrb, what)
    c.ev('unclamp')


# ---------------------------------------------------------------- restriction

def j_slice(c, pre, nrb, ret, axis, start, end):
    what = 'slice'
    c.check(ret is not nrb, what + ' returned the object itself')
    untouched(c, pre, nrb, what + ' (receiver)')
    ax = axis_of(pre, axis)
    p, U = pre.degree[ax], pre.knots[ax]
    a, b = pre.domain(ax)
    a = a if start is None else float(start)
    b = b if end is None else float(end)
    post = Obj.of(ret)
    valid(c, post, what)
    want = list(pre.knots)
    want[ax] = np.concatenate([np.full(p + 1, a), U[(U > a) & (U < b)], np.full(p + 1, b)])
    same_knots(c, post, want, what)
    uvw = grid_for(post, c.rng)
    V, E = pre.eval(uvw)
    # at the ends of the slice the geometry is continuous unless the axis has
    # a discontinuity there, which valid objects do not have
    V2, E2 = post.eval(uvw)
    c.near(V2, V, E + E2, what + ': geometry or fields', K=KO)
    c.near(code_points(ret, uvw), V, E + E2, what + ': evaluates differently', K=KO)
    c.ev('slice')


def j_extract(c, pre, nrb, ret, axis, value):
    what = 'extract'
    untouched(c, pre, nrb, what + ' (receiver)')
    ax = axis_of(pre, axis)
    knots = [U for i, U in enumerate(pre.knots) if i != ax]
    c.check(ret.dim == pre.dim - 1, what + ': dimension', got=ret.dim)
    c.check(ret.array.shape == pre.shape[:ax] + pre.shape[ax + 1:] + pre.array.shape[-1:],
            what + ': shape of the control data', got=ret.array.shape)
    H0 = np.asarray(ret.array)
    uvw = grid_for(pre, c.rng)
    uvw[ax] = np.array([float(value)])
    V, E = pre.eval(uvw)
    V, E = np.squeeze(V, ax), np.squeeze(E, ax)
    rest = [u for i, u in enumerate(uvw) if i != ax]
    if pre.dim == 1:
        A = H0.astype(L)
        sel = [0, 1, 2] + list(range(4, len(A)))
        c.near(A[sel] / A[3], V, E, what + ': point', K=KO)
        c.ev('extract:point')
    else:
        post = Obj(ret.knots, H0)
        same_knots(c, post, knots, what)
        valid(c, post, what)
        V2, E2 = post.eval(rest)
        c.near(V2, V, E + E2, what + ': geometry or fields', K=KO)
        c.near(code_points(ret, rest), V, E + E2, what + ': evaluates differently', K=KO)
    p, U = pre.degree[ax], pre.knots[ax]
    a, b = pre.domain(ax)
    c.ev('extract:end' if value in (a, b) else ('extract:knot' if value in U else 'extract:inner'))


def j_boundary(c, pre, nrb, ret, axis, side):
    ax = axis_of(pre, axis)
    j_extract(c, pre, nrb, ret, axis, pre.domain(ax)[side])
    c.ev('boundary')


# ---------------------------------------------------------------- parameters

def j_transpose(c, pre, nrb, ret, axes=None):
    what = 'transpose'
    c.check(ret is nrb, what + ' did not return the object')
    axes = tuple(range(pre.dim))[::-1] if axes is None else tuple(range(pre.dim)[i] for i in axes)
    permuted(c, pre, nrb, axes, what)


def j_swap(c, pre, nrb, ret, axis1, axis2):
    what = 'swap'
    c.check(ret is nrb, what + ' did not return the object')
    axes = list(range(pre.dim))
    i, j = axes[axis1], axes[axis2]
    axes[i], axes[j] = j, i
    permuted(c, pre, nrb, axes, what)


def permuted(c, pre, nrb, axes, what):
    post = Obj.of(nrb)
    same_knots(c, post, [pre.knots[i] for i in axes], what)
    c.check(post.dim == pre.dim, what + ': dimension')
    c.same(post.array, pre.array.transpose(list(axes) + [pre.dim]), what + ': control data')
    uvw = grid_for(pre, c.rng)
    V, E = pre.eval(uvw)
    got = code_points(nrb, [uvw[i] for i in axes])
    c.near(got, V.transpose(list(axes) + [pre.dim]), E.transpose(list(axes) + [pre.dim]),
           what + ': evaluates differently', K=KE)
    c.ev(what)


def slope(pre, ax):
    """Bound for |dC/du_ax| over the domain, Cartesian and fields."""
    p, U = pre.degree[ax], pre.knots[ax].astype(L)
    A = np.moveaxis(pre.array.astype(L), ax, 0)
    d = U[p + 1:len(U) - 1] - U[1:len(U) - p - 1]
    d = np.where(d > 0, d, np.inf)
    Q = p * np.abs(np.diff(A, axis=0)) / d.reshape((-1,) + (1,) * (A.ndim - 1))
    w = np.abs(pre.array[..., 3])
    C = np.abs(np.delete(pre.array, 3, -1) / pre.array[..., 3:4])
    q = np.delete(Q, 3, -1).max(axis=tuple(range(pre.dim)))
    cm = C.max(axis=tuple(range(pre.dim)))
    return (q + cm * Q[..., 3].max()) / w.min()


def j_reverse(c, pre, nrb, ret, *axes):
    what = 'reverse'
    c.check(ret is nrb, what + ' did not return the object')
    if len(axes) == 1 and isinstance(axes[0], tuple):
        axes = axes[0]
    axes = [range(pre.dim)[i] for i in axes] or list(range(pre.dim))
    flip = [axes.count(i) % 2 for i in range(pre.dim)]
    post = Obj.of(nrb)
    valid(c, post, what)
    idx = tuple(slice(None, None, -1) if f else slice(None) for f in flip)
    c.same(post.array, pre.array[idx], what + ': control data')
    uvw, m = [], []
    cond = 0
    for i in range(pre.dim):
        U = pre.knots[i]
        a, b = pre.domain(i)
        if flip[i] == 0:
            if i not in axes:
                c.same(post.knots[i], U, what + ': knots of another axis')
        # the formula, to rounding, and the ends exactly
        w = (L(a) + L(b)) - U[::-1].astype(L) if flip[i] else U
        c.near(post.knots[i], w, np.max(np.abs(U)) + abs(a) + abs(b), what + ': knots', K=8)
        if post.domain(i) != (a, b):
            c.fail(what + ': domain', axis=i, got=post.domain(i), want=(a, b))
        u = samples(post.degree[i], post.knots[i], c.rng)
        uvw.append(u)
        m.append(np.clip((L(a) + L(b)) - u.astype(L), L(a), L(b)) if flip[i] else u)
        cond = cond + slope(pre, i) * (abs(a) + abs(b))
    V, E = pre.eval(m)
    c.near(code_points(nrb, uvw), V, E + cond, what + ': C(a+b-u)', K=KE)
    c.ev('reverse')
    c.ev('reverse:axes', sum(flip))


def j_remap(c, pre, nrb, ret, axis, start, end):
    what = 'remap'
    c.check(ret is nrb, what + ' did not return the object')
    ax = axis_of(pre, axis)
    p, U = pre.degree[ax], pre.knots[ax]
    a, b = pre.domain(ax)
    s = a if start is None else float(start)
    e = b if end is None else float(end)
    post = Obj.of(nrb)
    valid(c, post, what)
    c.same(post.array, pre.array, what + ': control data')
    if (s, e) == (a, b):
        return untouched(c, pre, nrb, what + ' to the same domain')
    if post.domain(ax) != (s, e):
        c.fail(what + ': domain', got=post.domain(ax), want=(s, e))
    k = list(pre.knots)
    k[ax] = post.knots[ax]
    same_knots(c, post, k, what)
    r = (L(e) - L(s)) / (L(b) - L(a))
    # knots are stored after rounding U-a: that error is scaled like the knots
    mag = (np.max(np.abs(U)) + abs(a)) * r + abs(s) + abs(e) + np.max(np.abs((U - a) * r))
    c.near(post.knots[ax], L(s) + (U.astype(L) - L(a)) * r, mag, what + ': knots', K=8)
    c.same(np.diff(post.knots[ax]) == 0, np.diff(U) == 0, what + ': multiplicities')
    uvw = grid_for(pre, c.rng)
    m = list(uvw)
    u = samples(p, post.knots[ax], c.rng)
    uvw[ax] = u
    m[ax] = np.clip(L(a) + (u.astype(L) - L(s)) / r, L(a), L(b))
    V, E = pre.eval(m)
    cond = slope(pre, ax) * (mag / r + abs(a) + abs(b))
    c.near(code_points(nrb, uvw), V, E + cond, what + ': reparametrization is not affine', K=KE)
    c.ev('remap')


# ---------------------------------------------------------------- transforms

def matrix_of(t):
    return np.asarray(getattr(t, 'matrix', t), dtype='d')


def j_transform(c, pre, nrb, ret, trans):
    what = 'transform'
    c.check(ret is nrb, what + ' did not return the object')
    M = matrix_of(trans)
    moved(c, pre, nrb, M, np.abs(M), what)


def moved(c, pre, nrb, M, absM, what):
    """Points transformed by the affine M, weights and fields untouched."""
    post = Obj.of(nrb)
    same_knots(c, post, pre.knots, what)
    c.check(post.array.shape == pre.array.shape, what + ': shape')
    c.same(post.array[..., 4:], pre.array[..., 4:], what + ': fields')
    A = pre.array[..., :4].astype(L)
    want = A @ np.asarray(M, L).T
    mag = np.abs(A) @ np.asarray(absM, L).T
    c.near(post.array[..., :4], want, mag + np.abs(want), what + ': control points', K=64)
    if np.all(M[3] == [0, 0, 0, 1]):
        uvw = grid_for(pre, c.rng)
        V, E = pre.eval(uvw)
        W = V.copy()
        W[..., :3] = V[..., :3] @ np.asarray(M, L)[:3, :3].T + np.asarray(M, L)[:3, 3]
        S = E.copy()
        S[..., :3] = E[..., :3] @ np.asarray(absM, L)[:3, :3].T + np.asarray(absM, L)[:3, 3]
        c.near(code_points(nrb, uvw), W, S, what + ': points are not the transformed points', K=KE)
    c.ev(what)


def vec3(x, axis, fill, scalar_all=False):
    x = np.asarray(x, 'd')
    t = np.full(3, fill, 'd')
    if x.ndim > 0 and axis is None:
        t[:x.size] = x
    elif axis is None:
        if scalar_all:
            t[:] = x
        else:
            t[0] = x
    else:
        t[axis] = x
    return t


def m_translate(displ, axis=None):
    M = np.eye(4)
    M[:3, 3] = vec3(displ, axis, 0)
    return M


def m_scale(scale, axis=None):
    M = np.eye(4)
    M[[0, 1, 2], [0, 1, 2]] = vec3(scale, axis, 1, True)
    return M


def m_rotate(angle, axis=2):
    """Rodrigues' formula in extended precision."""
    a = L(float(angle))
    k = np.zeros(3, L)
    ax = np.asarray(axis)
    if ax.ndim == 0:
        k[int(ax)] = 1
    else:
        k[:ax.size] = ax
        s = np.max(np.abs(k))
        k = k / s
        k = k / np.sqrt(np.sum(k * k))
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]], L)
    R = np.eye(4, dtype=L)
    R[:3, :3] += np.sin(a) * K + (1 - np.cos(a)) * (K @ K)
    return R


def j_translate(c, pre, nrb, ret, displ, axis=None):
    c.check(ret is nrb, 'translate did not return the object')
    M = m_translate(displ, axis)
    moved(c, pre, nrb, M, np.abs(M), 'translate')


def j_scale(c, pre, nrb, ret, scale, axis=None):
    c.check(ret is nrb, 'scale did not return the object')
    M = m_scale(scale, axis)
    moved(c, pre, nrb, M, np.abs(M), 'scale')


def j_rotate(c, pre, nrb, ret, angle, axis=2):
    c.check(ret is nrb, 'rotate did not return the object')
    M = m_rotate(angle, axis)
    A = np.eye(4)
    A[:3, :3] = 1 + abs(float(angle)) * 0.0
    moved(c, pre, nrb, M, A, 'rotate')


# ---------------------------------------------------------------- evaluation

def args_grid(c, pre, nrb, u, v, w):
    """Tensor arguments as the code understands them, and which are scalars.
    An omitted argument means the Greville abscissae that greville() reports."""
    out, scal = [], []
    for i, a in enumerate([u, v, w][:pre.dim]):
        if a is None:
            g = np.array(nrb.greville(i), 'd')
            c.near(g, ref_greville(pre.degree[i], pre.knots[i]),
                   np.max(np.abs(pre.knots[i])) + 0 * g, 'default arguments', K=16)
            out.append(g)
            scal.append(False)
        else:
            a = np.asarray(a, 'd')
            out.append(a.ravel())
            scal.append(a.ndim == 0)
    return out, scal


def ref_greville(p, U):
    U = np.asarray(U, L)
    return np.array([np.sum(U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)])


def drop(A, scal):
    idx = tuple(0 if s else slice(None) for s in scal)
    return A[idx]


def in_domain(pre, uvw):
    return [np.clip(u, *pre.domain(i)) for i, u in enumerate(uvw)]


def j_call(c, pre, nrb, ret, u=None, v=None, w=None, fields=False):
    what = '__call__'
    untouched(c, pre, nrb, what + ' (receiver)')
    uvw, scal = args_grid(c, pre, nrb, u, v, w)
    F = None
    base = Obj(pre.knots, pre.array[..., :4]) if pre.dim else pre
    if fields is False:
        V, E = base.eval(uvw)
        got = (ret, None)
    elif fields is True:
        V, E = pre.eval(uvw)
        got = ret
    else:
        V, E = base.eval(uvw, F=np.asarray(fields, 'd'))
        got = ret
    V, E = drop(V, scal), drop(E, scal)
    c.near(got[0], V[..., :3], E[..., :3], what + ': points', K=KE)
    if fields is not False:
        c.near(got[1], V[..., 3:], E[..., 3:], what + ': fields', K=KE)
    c.ev('evaluated-points', V[..., 0].size)
    c.ev('call')


def j_evaluate(c, pre, nrb, ret, fields=None, u=None, v=None, w=None):
    what = 'evaluate'
    untouched(c, pre, nrb, what + ' (receiver)')
    uvw, scal = args_grid(c, pre, nrb, u, v, w)
    base = Obj(pre.knots, pre.array[..., :4])
    if fields is None:
        V, E = pre.eval(uvw)
    else:
        V, E = base.eval(uvw, F=np.asarray(fields, 'd'))
    V, E = drop(V[..., 3:], scal), drop(E[..., 3:], scal)
    if fields is not None and np.shape(fields) == pre.shape:
        V, E = V[..., 0], E[..., 0]
    c.near(ret, V, E, what + ': fields', K=KE)
    c.ev('evaluated-fields', V.size)
    c.ev('evaluate')


# a derivative is one-sided at knots where it jumps: compare with the span the
# code's convention gives (right-continuous, last span at the right end)
def derivative(c, pre, nrb, ret, order, fields, u, v, w, mapped, what):
    uvw, scal = args_grid(c, pre, nrb, u, v, w)
    F = fields
    if F is None:
        if pre.array.shape[-1] > 4:
            F = pre.array[..., 4:] / pre.array[..., 3:4]
        else:
            F = pre.coords()
    F = np.asarray(F, 'd')
    squeeze = F.shape == pre.shape
    V, E = pre.deriv(order, uvw, F)
    if mapped and order == 1:
        X, XE = pre.deriv(1, uvw, pre.coords()[..., :pre.dim])
        Xi = np.linalg.inv(X.astype('d')).astype(L)
        # one Newton step makes the inverse accurate to extended precision
        I = np.eye(pre.dim, dtype=L)
        for _ in range(3):
            Xi = Xi @ (2 * I - X @ Xi)
        kap = np.max(np.abs(Xi), axis=(-1, -2), keepdims=True) * np.max(XE, axis=(-1, -2), keepdims=True)
        E = np.max(E, axis=-1, keepdims=True) * np.max(np.abs(Xi), axis=(-1, -2), keepdims=True) * \
            (1 + kap) ** 2 * pre.dim ** 2 + 0 * V
        V = V @ Xi
    want, tol = V, E
    if squeeze:
        ix = (slice(None),) * pre.dim + (0,)
        want, tol = want[ix], tol[ix]
    want, tol = drop(want, scal), drop(tol, scal)
    got = np.asarray(ret)
    if got.shape != want.shape:
        c.fail(what + ': wrong shape', got=got.shape, want=want.shape)
    if order == 4 and pre.dim == 1:
        return fourth_of_curve(c, pre, uvw, F, got, want, tol, squeeze, scal, what)
    c.near(got, want, tol, what, K=KE)
    c.ev('derivative%d' % order, want.size)


def fourth_of_curve(c, pre, uvw, F, got, want, tol, squeeze, scal, what):
    """Known finding C02-4TH: for curves the third basis derivatives are used
    as the fourth.  Anything but the right value or exactly that is new."""
    ok = np.abs(got - want) <= KE * EPS * tol + L(1e-280)
    if np.all(ok):
        c.ev('derivative4', want.size)
        return
    w = pre.array[..., 3:4].astype(L)
    F = np.asarray(F, 'd').reshape(pre.shape + (-1,)).astype(L)
    A = np.concatenate([F * w, w], -1)
    D = [ref.basis(pre.degree[0], pre.knots[0], uvw[0], r) for r in (0, 1, 2, 3, 3)]
    H = [B @ A for B, _ in D]
    M = [m @ np.abs(A) for _, m in D]
    from math import comb
    R, S = [], []
    for k in range(5):
        num, mag = H[k][..., :-1].copy(), M[k][..., :-1].copy()
        for j in range(1, k + 1):
            num -= comb(k, j) * H[j][..., -1:] * R[k - j]
            mag += comb(k, j) * M[j][..., -1:] * S[k - j]
        R.append(num / H[0][..., -1:])
        S.append(mag / np.abs(H[0][..., -1:]) + np.abs(R[-1]) * M[0][..., -1:] / np.abs(H[0][..., -1:]))
    alt, at = R[4][..., None, None, None, None], S[4][..., None, None, None, None]
    if squeeze:
        alt, at = alt[:, 0], at[:, 0]
    alt, at = drop(alt, scal), drop(at, scal)
    c.near(got, alt, at + tol, what, K=KE)
    c.known('C02-4TH', 'the fourth derivative of a curve uses third derivatives of the basis functions')
    c.ev('derivative4', want.size)


def j_gradient(c, pre, nrb, ret, fields=None, u=None, v=None, w=None, mapped=False):
    untouched(c, pre, nrb, 'gradient (receiver)')
    derivative(c, pre, nrb, ret, 1, fields, u, v, w, mapped, 'gradient' + (' mapped' if mapped else ''))
    c.ev('gradient:mapped' if mapped else 'gradient')


def j_hessian(c, pre, nrb, ret, fields=None, u=None, v=None, w=None, mapped=False):
    untouched(c, pre, nrb, 'hessian (receiver)')
    if not mapped:
        derivative(c, pre, nrb, ret, 2, fields, u, v, w, mapped, 'hessian')
        c.ev('hessian')


def j_derivative(c, pre, nrb, ret, order, fields=None, u=None, v=None, w=None, mapped=False):
    untouched(c, pre, nrb, 'derivative (receiver)')
    if mapped and order > 1:
        return
    derivative(c, pre, nrb, ret, order, fields, u, v, w, mapped, 'derivative of order %d' % order)
    c.ev('derivative')


# ---------------------------------------------------------------- queries

def j_spans(c, pre, nrb, ret, axis=None):
    untouched(c, pre, nrb, 'spans (receiver)')
    each(c, pre, ret, axis, lambda i: one_spans(c, pre, i))


def each(c, pre, ret, axis, want, near=None):
    if axis is None:
        c.check(len(ret) == pre.dim, 'per-axis query: number of axes')
        todo = list(zip(range(pre.dim), ret))
    else:
        todo = [(range(pre.dim)[axis], ret)]
    for i, r in todo:
        w = want(i)
        if isinstance(w, tuple):
            for a, b in zip(r, w):
                c.same(a, b, 'per-axis query', axis=i)
        else:
            c.same(r, w, 'per-axis query', axis=i)


def one_spans(c, pre, i):
    p, U = pre.degree[i], pre.knots[i]
    k = np.arange(p, len(U) - p - 1)
    c.ev('spans')
    return k[U[k] < U[k + 1]]


def j_breaks(c, pre, nrb, ret, axis=None, mults=False):
    untouched(c, pre, nrb, 'breaks (receiver)')

    def want(i):
        p, U = pre.degree[i], pre.knots[i]
        u = np.unique(U[p:len(U) - p])
        c.ev('breaks')
        if not mults:
            return u
        return u, np.array([min(p, int(np.sum(U == x))) for x in u])
    each(c, pre, ret, axis, want)


def abscissae(c, pre, ret, axis, fun, what):
    todo = list(zip(range(pre.dim), ret)) if axis is None else [(range(pre.dim)[axis], ret)]
    for i, r in todo:
        w = fun(pre.degree[i], pre.knots[i])
        c.near(r, w, np.max(np.abs(pre.knots[i])) + 0 * w, what, K=16, axis=i)
        c.ev(what)


def j_greville(c, pre, nrb, ret, axis=None):
    untouched(c, pre, nrb, 'greville (receiver)')
    abscissae(c, pre, ret, axis, ref_greville, 'greville')


def ref_spread(p, U, x):
    b = np.unique(U[p:len(U) - p]).astype(L)
    out = [b[0]]
    for lo, hi in zip(b[:-1], b[1:]):
        out += [lo + (hi - lo) * t for t in x[1:-1]] + [hi]
    return np.array(out)


def lobatto_points(n):
    """n Gauss-Lobatto points on [0,1], Newton iteration in extended precision."""
    N = n - 1
    x = np.cos(np.pi * np.arange(n) / N).astype(L)[::-1]
    for _ in range(100):
        P = np.zeros((n, n), L)
        P[:, 0] = 1
        P[:, 1] = x
        for k in range(2, n):
            P[:, k] = ((2 * k - 1) * x * P[:, k - 1] - (k - 1) * P[:, k - 2]) / k
        dx = (x * P[:, N] - P[:, N - 1]) / ((N + 1) * P[:, N])
        x = x - dx
    x[0], x[-1] = -1, 1
    return (x + 1) / 2


def j_lagrange(c, pre, nrb, ret, axis=None):
    untouched(c, pre, nrb, 'lagrange (receiver)')
    abscissae(c, pre, ret, axis, lambda p, U: ref_spread(p, U, np.linspace(0, 1, p + 1).astype(L)
                                                       if p > 1 else [0, 1]), 'lagrange')


def j_lobatto(c, pre, nrb, ret, axis=None):
    untouched(c, pre, nrb, 'lobatto (receiver)')
    abscissae(c, pre, ret, axis, lambda p, U: ref_spread(p, U, lobatto_points(p + 1)
                                                       if p > 1 else [0, 1]), 'lobatto')


def j_copy(c, pre, nrb, ret):
    untouched(c, pre, nrb, 'copy (receiver)')
    untouched(c, pre, ret, 'copy')
    mem = [nrb.array] + list(nrb.knots)
    for a in [ret.array] + list(ret.knots):
        for b in mem:
            if np.shares_memory(a, b):
                c.fail('copy shares memory with the original')
    c.check(type(ret) is type(nrb), 'copy: type')
    c.ev('copy')


def j_clone(c, pre, nrb, ret):
    untouched(c, pre, nrb, 'clone (receiver)')
    untouched(c, pre, ret, 'clone')
    c.check(ret is not nrb, 'clone returned the object itself')
    c.check(type(ret) is type(nrb), 'clone: type')
    c.ev('clone')


JUDGES = dict(insert=j_insert, refine=j_refine, elevate=j_elevate, remove=j_remove,
              clamp=j_clamp, unclamp=j_unclamp, slice=j_slice, extract=j_extract,
              boundary=j_boundary, transpose=j_transpose, swap=j_swap, reverse=j_reverse,
              remap=j_remap, transform=j_transform, translate=j_translate, move=j_translate,
              scale=j_scale, rotate=j_rotate, __call__=j_call, evaluate=j_evaluate,
              gradient=j_gradient, hessian=j_hessian, derivative=j_derivative, spans=j_spans,
              breaks=j_breaks, greville=j_greville, lagrange=j_lagrange, lobatto=j_lobatto,
              copy=j_copy, clone=j_clone)

INPLACE = ('insert', 'refine', 'elevate', 'remove', 'clamp', 'unclamp', 'transpose', 'swap',
           'reverse', 'remap', 'transform', 'translate', 'move', 'scale', 'rotate')

_sigs = {}


def bound(name, args, kw):
    """Arguments by name, following the judge's (= the documented) signature."""
    if name == 'reverse':
        return None
    if name not in _sigs:
        _sigs[name] = inspect.Signature(
            list(inspect.signature(JUDGES[name]).parameters.values())[4:])
    return _sigs[name].bind(*args, **kw).arguments


def frozen(args, kw):
    """Deep snapshot of array arguments (the call may keep or change them)."""
    f = lambda x: x.copy() if isinstance(x, np.ndarray) else x
    return [f(a) for a in args], {k: f(v) for k, v in kw.items()}


def judge(c, name, pre, nrb, ret, args, kw):
    if name == 'reverse':
        return j_reverse(c, pre, nrb, ret, *args)
    b = bound(name, args, kw)
    return JUDGES[name](c, pre, nrb, ret, **b)


def call(c, nrb, name, *args, **kw):
    pre = Obj.of(nrb)
    fa, fk = frozen(args, kw)
    ret = getattr(nrb, name)(*args, **kw)
    c.observe(name, ret, nrb.array, nrb.knots)
    if ret is not nrb and isinstance(ret, type(nrb)):
        c.observe(name, ret.array, ret.knots)
    judge(c, name, pre, nrb, ret, fa, fk)
    return ret


_tls = threading.local()


def attach(NURBS, sink):
    """Monitor every outermost call of a public method, whoever makes it.
    sink(name) returns the Case that judges this call, or None."""
    for name in JUDGES:
        orig = getattr(NURBS, name, None)
        if orig is None:
            continue

        def make(orig, name):
            def method(self, *args, **kw):
                if getattr(_tls, 'depth', 0):
                    return orig(self, *args, **kw)
                c = sink(name)
                if c is None or not 1 <= self.dim <= 3:
                    return orig(self, *args, **kw)
                pre = Obj.of(self)
                fa, fk = frozen(args, kw)
                _tls.depth = 1
                try:
                    ret = orig(self, *args, **kw)
                    judge(c, name, pre, self, ret, fa, fk)
                finally:
                    _tls.depth = 0
                return ret
            method.__name__ = name
            return method
        setattr(NURBS, name, make(orig, name))
