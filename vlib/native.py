"""Random valid calls of the low-level module (igakit.igalib)."""
import numpy as np
from igakit import igalib
from . import gen
from .gen import choice

bsp, iga = igalib.bsp, igalib.iga
DER = ('Gradient', 'Hessian', 'ThirdDer', 'FourthDer')


def form(c, a):
    """The same numbers in another layout or type."""
    k = choice(c.rng, ['plain'] * 4 + ['list', 'fortran', 'strided', 'reversed', 'readonly', 'swapped', 'offset'])
    c.ev('layout:' + k)
    a = np.array(a, 'd')
    if k == 'list':
        return a.tolist()
    if k == 'fortran':
        return np.asfortranarray(a)
    if k == 'strided':
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 'readonly':
        a.flags.writeable = False
    if k == 'swapped':
        return a.astype(a.dtype.newbyteorder())
    if k == 'offset':
        b = np.zeros(a.size * 8 + 3, 'u1')[3:]
        b[:] = np.frombuffer(a.tobytes(), 'u1')
        return b.view('d').reshape(a.shape) if a.size else a
    return a


def curve(c, maxp=9, dmax=7):
    rng = c.rng
    p = int(rng.integers(1, maxp + 1))
    U, _ = gen.knots(rng, p, maxspan=int(choice(rng, [1, 2, 5, 12])))
    n = len(U) - p - 2
    d = int(rng.integers(1, dmax + 1))
    return p, U, n, rng.normal(size=(n + 1, d))


def at(c, p, U, n=None):
    n = int(c.rng.integers(1, 8)) if n is None else n
    return np.array([gen.param(c.rng, p, U)[0] for _ in range(n)])


def one(c):
    """(name, thunk) of a call that must succeed."""
    rng = c.rng
    kind = choice(rng, ['basis', 'curve', 'curve', 'curve', 'eval', 'eval', 'der', 'der', 'iga', 'iga'])
    if kind == 'basis':
        p, U, n, P = curve(c)
        u = float(at(c, p, U, 1)[0])
        V = form(c, U)
        d = int(rng.integers(0, p + 1))
        return choice(rng, [
            ('FindSpan', lambda: bsp.FindSpan(p, V, u)), ('FindMult', lambda: bsp.FindMult(p, V, u)),
            ('FindSpanMult', lambda: bsp.FindSpanMult(p, V, u)), ('EvalBasisFuns', lambda: bsp.EvalBasisFuns(p, V, u)),
            ('EvalBasisFunsDers', lambda: bsp.EvalBasisFunsDers(p, V, u)),
            ('EvalBasisFunsDers', lambda: bsp.EvalBasisFunsDers(p, V, u, d)),
            ('EvalBasisFunsDers', lambda: bsp.EvalBasisFunsDers(p, V, u, d, bsp.FindSpan(p, V, u))),
            ('SpanIndex', lambda: bsp.SpanIndex(p, V)), ('Greville', lambda: bsp.Greville(p, V))])
    if kind == 'curve':
        p, U, n, P = curve(c)
        V, Q = form(c, U), form(c, P)
        u = float(at(c, p, U, 1)[0])
        room = p - int(np.sum(U == u)) if U[p] < u < U[-p - 1] else 0
        r = int(rng.integers(0, max(room, 0) + 1))
        l, h = bool(rng.random() < .5), bool(rng.random() < .5)
        X = []
        for v in at(c, p, U, int(rng.integers(0, 7))):
            if U[p] < v < U[-p - 1] and np.sum(U == v) + X.count(v) < p:
                X.append(float(v))
        X.sort()
        t = int(rng.integers(0, 5))
        C = int(rng.integers(0, p))
        tol = choice(rng, [1e-9, 0.0, 1e9, -1.0])
        clamped = U[0] == U[p] and U[-1] == U[-p - 1]
        inner = U[(U > U[p]) & (U < U[-p - 1])]
        v, q = u, 0
        if len(inner):
            v = float(choice(rng, inner))
            q = int(rng.integers(0, min(p, np.sum(U == v)) + 1))
        opts = [('InsertKnot', lambda: bsp.InsertKnot(p, V, Q, u, r)),
                ('RemoveKnot', lambda: bsp.RemoveKnot(p, V, Q, v, tol, q)),
                ('Clamp', lambda: bsp.Clamp(p, V, Q, l, h)), ('Unclamp', lambda: bsp.Unclamp(p, V, Q, C, l, h)),
                ('Unclamp', lambda: bsp.Unclamp(p, V, Q)), ('Clamp', lambda: bsp.Clamp(p, V, Q)),
                ('RefineKnotVector', lambda: bsp.RefineKnotVector(p, V, Q, X)), ('Extract', lambda: bsp.Extract(p, V, Q, u)),
                ('Evaluate0', lambda: bsp.Evaluate0(Q[0]))]
        if clamped:
            opts += [('DegreeElevate', lambda: bsp.DegreeElevate(p, V, Q, t))] * 3
        return choice(rng, opts)
    if kind == 'iga':
        p, U, n, P = curve(c, 7)
        V = form(c, U)
        d, q = int(rng.integers(0, p + 1)), int(rng.integers(1, 11))
        X = form(c, at(c, p, U))
        E = int(rng.integers(1, 9))
        C = int(rng.integers(0, p))
        w = bool(rng.random() < .5 and (E - 1) * (p - C) >= 1)
        return choice(rng, [
            ('KnotVector', lambda: iga.KnotVector(E, p, C, -1.5, 2.5, w)), ('KnotVector', lambda: iga.KnotVector(E, p)),
            ('GaussLegendreRule', lambda: iga.GaussLegendreRule(q)), ('GaussLobattoRule', lambda: iga.GaussLobattoRule(max(q, 2))),
            ('BasisData', lambda: iga.BasisData(p, V, d, q)), ('BasisData', lambda: iga.BasisData(p, V)),
            ('iga.Greville', lambda: iga.Greville(p, V)), ('BasisDataCol', lambda: iga.BasisDataCol(p, V, X)),
            ('BasisDataCol', lambda: iga.BasisDataCol(p, V, X, d))])
    dim = int(rng.integers(1, 4))
    args, shape, X = [], [], []
    for _ in range(dim):
        p = int(rng.integers(1, {1: 7, 2: 4, 3: 3}[dim] + 1))
        U, _ = gen.knots(rng, p, maxspan={1: 6, 2: 3, 3: 2}[dim])
        args += [p, form(c, U)]
        shape.append(len(U) - p - 1)
        X.append(form(c, at(c, p, U, int(rng.integers(1, {1: 9, 2: 5, 3: 4}[dim])))))
    d = int(rng.integers(1, 8))
    if kind == 'eval':
        P = form(c, rng.normal(size=shape + [d]))
        f = getattr(bsp, 'Evaluate%d' % dim)
        return 'Evaluate%d' % dim, lambda: f(*args, P, *X)
    P = rng.normal(size=shape + [4])
    P[..., 3] = rng.uniform(.5, 2, shape)
    P, F = form(c, P), form(c, rng.normal(size=shape + [d]))
    name = choice(rng, DER)
    m = 0
    if name == 'Gradient' and rng.random() < .3:
        m = 1
    f = getattr(bsp, name + str(dim))
    return name + str(dim), lambda: f(m, *args, P, F, *X)
