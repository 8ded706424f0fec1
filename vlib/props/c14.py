"""Basis, span, node and quadrature queries, and the low-level module."""
import numpy as np
from vlib import gen, work, ref
from vlib.judge import call, ref_greville, lobatto_points, one_spans
from vlib.ref import Obj, L, EPS
from igakit.igalib import bsp, iga


def legendre(n, x):
    P0, P1 = np.ones_like(x), x
    if n == 0:
        return P0, P0 * 0
    for k in range(2, n + 1):
        P0, P1 = P1, ((2 * k - 1) * x * P1 - (k - 1) * P0) / k
    return P1, P0


def gauss_legendre(q):
    x = np.cos(np.pi * (np.arange(1, q + 1) - L(0.25)) / (q + L(0.5))).astype(L)[::-1]
    if q == 1:
        x = np.zeros(1, L)
    for _ in range(60):
        P, Pm = legendre(q, x)
        d = q * (x * P - Pm) / (x * x - 1) if q > 1 else np.ones(1, L)
        x = x - P / d
    P, Pm = legendre(q, x)
    d = q * (x * P - Pm) / (x * x - 1) if q > 1 else np.ones(1, L)
    return x, 2 / ((1 - x * x) * d * d)


def gauss_lobatto(q):
    x = lobatto_points(q) * 2 - 1
    P, _ = legendre(q - 1, x)
    return x, 2 / (q * (q - 1) * P * P)


def rules(c):
    """Every supported rule: nodes, weights, exactness degree."""
    for q in range(1, 11):
        X, W = iga.GaussLegendreRule(q)[:2]
        x, w = gauss_legendre(q)
        rule(c, X, W, x, w, 2 * q - 1, 'Gauss-Legendre rule %d' % q)
    for q in range(2, 11):
        X, W = iga.GaussLobattoRule(q)[:2]
        x, w = gauss_lobatto(q)
        rule(c, X, W, x, w, 2 * q - 3, 'Gauss-Lobatto rule %d' % q)


def rule(c, X, W, x, w, deg, what):
    c.near(X, x, 1 + 0 * x, what + ': nodes', K=8)
    c.near(W, w, 1 + 0 * x, what + ': weights', K=8)
    X, W = X.astype(L), W.astype(L)
    for k in range(deg + 1):
        c.near(np.sum(W * X ** k), L(2) / (k + 1) if k % 2 == 0 else L(0), L(2),
               '%s: integral of x**%d' % (what, k), K=32)
    c.ev('quadrature-rules')


def case(c):
    rng = c.rng
    if c.idx % 50 == 0:
        rules(c)
    nrb = work.obj(c)
    o = Obj.of(nrb)
    for name in ('spans', 'breaks', 'greville', 'lagrange', 'lobatto'):
        axis = gen.choice(rng, [None, None] + list(range(-nrb.dim, nrb.dim)))
        if name == 'lobatto' and max(nrb.degree) > 9:
            continue
        if name == 'breaks':
            if rng.random() < .5:
                call(c, nrb, name, axis, mults=True)
            elif axis is None:
                call(c, nrb, name)
            else:
                call(c, nrb, name, axis)
        elif axis is None:
            call(c, nrb, name)
        else:
            call(c, nrb, name, axis)
    for ax in range(nrb.dim):
        U = o.knots[ax]
        if rng.random() < .1:
            U = tight(rng, nrb.degree[ax], U)
            c.ev('tiny-elements')
        direct(c, nrb.degree[ax], U)
    knot_vectors(c)
    basis_data(c)
    if rng.random() < .5:
        default_control(c)
    c.nontrivial(*o.knots)


def direct(c, p, U):
    rng = c.rng
    us = np.concatenate([ref.samples(p, U, rng, 1), work.points(c, p, U, 3)])
    n = len(U) - p - 2
    ks = ref.span_of(p, U, us)
    tab = [ref.basis(p, U, us, r) for r in range(p + 1)]
    for i, u in enumerate(us):
        u, k = float(u), int(ks[i])
        got = bsp.FindSpan(p, U, u)
        c.check(got == k, 'FindSpan', u=u, got=got, want=k, p=p, U=U)
        mult = int(np.sum(U == u))
        got = bsp.FindMult(p, U, u)
        w = mult
        c.check(got == w, 'FindMult', u=u, got=got, want=w, p=p, U=U)
        got = tuple(bsp.FindSpanMult(p, U, u))
        c.check(got == (k, w), 'FindSpanMult', u=u, got=got, want=(k, w), p=p, U=U)
        want, mag = [x[i, k - p:k + 1] for x in tab[0]]
        N = bsp.EvalBasisFuns(p, U, u) if rng.random() < .5 else bsp.EvalBasisFuns(p, U, u, k)
        c.near(N, want, mag + np.sum(mag), 'basis functions', K=64, u=u, p=p, U=U)
        c.check(np.all(N >= 0), 'a basis function is negative', u=u, N=N)
        c.near(np.sum(N.astype(L)), L(1), L(p + 1), 'basis functions do not sum to one', K=8, u=u, U=U)
        d = int(rng.integers(0, p + 1))
        if rng.random() < .3:
            D, d = bsp.EvalBasisFunsDers(p, U, u), p
        else:
            D = bsp.EvalBasisFunsDers(p, U, u, d)
        c.check(D.shape == (d + 1, p + 1), 'shape of basis derivatives', got=D.shape)
        for r in range(d + 1):
            want, mag = [x[i, k - p:k + 1] for x in tab[r]]
            c.near(D[r], want, np.max(mag) + 0 * mag, 'basis derivatives of order %d' % r, K=2000, u=u, p=p, U=U)
            if r:
                c.near(np.sum(D[r].astype(L)), L(0), np.sum(mag), 'basis derivatives do not sum to zero',
                       K=2000, u=u, U=U)
        c.ev('basis-points')
        c.ev('basis-derivatives', d)
    idx = np.arange(p, n + 1)
    c.same(bsp.SpanIndex(p, U), idx[U[idx] < U[idx + 1]], 'SpanIndex', p=p, U=U)
    c.near(bsp.Greville(p, U), ref_greville(p, U), np.max(np.abs(U)) + np.zeros(n + 1), 'Greville', K=16)
    c.ev('axes')


def tight(rng, p, U):
    """Some elements become tiny: other knots move next to a break."""
    a, b = U[p], U[-p - 1]
    br = np.unique(U[p:-p])
    V = np.array(U)
    for _ in range(int(rng.integers(1, 3))):
        if len(br) < 3:
            break
        k = int(rng.integers(1, len(br) - 1))
        x = br[k - 1] + 10.0 ** rng.uniform(-15, -4) * (b - a)
        if br[k - 1] < x < br[k]:
            V[U == br[k]] = x
        br = np.unique(V[p:-p])
        U = V.copy()
    return V


def knot_vectors(c):
    rng = c.rng
    E, p = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    if rng.random() < .1:
        E, p = int(rng.choice([50, 1000, 5000, 70000])), int(rng.integers(1, 13))
    C = int(rng.integers(0, p))
    a = float(gen.choice(rng, [0., -1., 0.1, 100., float(rng.uniform(-5, 5))]))
    b = a + float(gen.choice(rng, [1., 0.7, 10., float(rng.uniform(.01, 9))]))
    if rng.random() < .1:
        a, b = gen.choice(rng, [(0., 1e-12), (0., 1e-18), (1e-3, 2e-3), (-1e9, 1e9), (0., 1e12)])
    w = bool(rng.random() < .4)
    if w and (E * (p - C) < C + 1):
        w = False
    U = iga.KnotVector(E, p, C, a, b, w)
    m = p - C
    br = [L(a) + i * (L(b) - L(a)) / E for i in range(E + 1)]
    inner = [x for x in br[1:-1] for _ in range(m)]
    want = np.array([br[0]] * (p + 1) + inner + [br[-1]] * (p + 1), L)
    note = dict(E=E, p=p, C=C, a=a, b=b, wrap=w)
    if w:
        n = len(want) - p - 2
        for k in range(C + 1):
            want[C - k] = want[p] - want[n + 1] + want[n - k]
            want[len(want) - 1 - C + k] = want[n + 1] - want[p] + want[p + 1 + k]
    c.near(U, want, abs(a) + abs(b) + 2 * (b - a) + 0 * want, 'KnotVector', K=16, **note)
    c.check(U[p] == a and U[-p - 1] == b, 'KnotVector: ends', **note)
    c.check(np.all(np.diff(U) >= 0), 'KnotVector decreases', **note)
    c.ev('knot-vectors:wrapped' if w else 'knot-vectors')


def basis_data(c):
    rng = c.rng
    p = int(rng.integers(1, 6)) if rng.random() < .9 else int(rng.integers(6, 12))
    U, tag = gen.knots(rng, p, maxspan=5 if rng.random() < .95 else 60)
    if rng.random() < .15:
        U = tight(rng, p, U)
    q = int(rng.integers(1, 11))
    d = int(rng.integers(0, min(p, 4) + 1))
    try:
        out = iga.BasisData(p, U, d, q)
    except TypeError:
        return
    O, J, W, X, N = out
    k = np.arange(p, len(U) - p - 1)
    k = k[U[k] < U[k + 1]]
    x, w = gauss_legendre(q)
    c.same(np.asarray(O), k - p, 'BasisData: first basis function of each element', p=p, U=U)
    lo, hi = U[k].astype(L), U[k + 1].astype(L)
    c.near(J, (hi - lo) / 2, np.abs(hi) + np.abs(lo), 'BasisData: jacobians', K=8)
    c.near(W, w, 1 + 0 * w, 'BasisData: weights', K=8)
    pts = lo[:, None] + (x[None, :] + 1) * ((hi - lo) / 2)[:, None]
    mag = np.abs(lo) + np.abs(hi)
    c.near(X, pts, np.repeat(mag[:, None], q, 1), 'BasisData: points', K=16)
    c.near(np.sum(np.asarray(J, L)) * np.sum(np.asarray(W, L)), L(U[-p - 1]) - L(U[p]),
           np.sum(mag), 'BasisData: the elements do not cover the domain', K=64)
    X = np.asarray(X)
    N = np.asarray(N)
    c.check(N.shape == (len(k), q, p + 1, d + 1), 'BasisData: shape', got=N.shape)
    for r in range(d + 1):
        B, M = ref.basis(p, U, X.ravel(), r, span=np.repeat(k, q))
        for e in range(len(k)):
            s = slice(k[e] - p, k[e] + 1)
            mg = M[e * q:(e + 1) * q, s]
            c.near(N[e, :, :, r], B[e * q:(e + 1) * q, s], np.max(mg) + 0 * mg,
                   'BasisData: derivatives of order %d' % r, K=4000, p=p, U=U)
    c.ev('basis-data')
    c.ev('basis-data:elements', len(k))
    collocation(c, p, U, d)


def collocation(c, p, U, d):
    """Data at one point per basis function."""
    rng = c.rng
    G = np.asarray(bsp.Greville(p, U))
    X = np.clip(G, U[p], U[-p - 1]) if rng.random() < .6 else np.sort(work.points(c, p, U, 4))
    try:
        O, N = iga.BasisDataCol(p, U, X, d)
    except TypeError:
        return
    k = ref.span_of(p, U, X)
    c.same(np.asarray(O), k - p, 'BasisDataCol: first basis function', p=p, U=U, X=X)
    N = np.asarray(N)
    c.check(N.shape == (len(X), p + 1, d + 1), 'BasisDataCol: shape', got=N.shape)
    for r in range(d + 1):
        B, M = ref.basis(p, U, X, r)
        for e in range(len(X)):
            s = slice(k[e] - p, k[e] + 1)
            c.near(N[e, :, r], B[e, s], np.max(M[e, s]) + np.zeros(p + 1), 'BasisDataCol', K=4000, p=p, U=U, x=X[e])
    c.ev('collocation-points', len(X))


def default_control(c):
    """An object made from knots alone is the identity map."""
    rng = c.rng
    dim = int(rng.integers(1, 4))
    degs = [int(rng.integers(1, 4 if rng.random() < .9 else 8)) for _ in range(dim)]
    Us = [gen.knots(rng, p, ends='clamped')[0] for p in degs]
    nrb = work.NURBS(Us)
    o = Obj.of(nrb)
    c.check(o.degree == tuple(degs), 'degree inferred from the knots', got=o.degree, want=degs)
    g = [ref.samples(p, U, rng, 1) for p, U in zip(degs, Us)]
    out = nrb(*g)
    s = [np.max(np.abs(U)) for U in Us]
    for i in range(3):
        want = np.zeros(out.shape[:-1], L)
        if i < dim:
            want = want + g[i].reshape([-1 if j == i else 1 for j in range(dim)])
        c.near(out[..., i], want, (s[i] if i < dim else 0) + 0 * want, 'identity map', K=200)
    c.ev('identity-maps')
