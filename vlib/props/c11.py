"""Invalid requests: refused, nothing changed, everything still works.

A case makes one object and a dozen invalid requests on it (methods, cad
functions, constructors, low-level calls).  Each must raise an exception (an
attempt to leave the process counts as a violation, and so does its death,
which the driver sees); afterwards every object involved must be bit-wise what
it was, and at the end the object must still evaluate, refine and elevate as
the reference says."""
import numpy as np
from igakit import cad, igalib
from igakit.io import PetIGA
from igakit.nurbs import NURBS
from igakit.transform import transform
from vlib import gen, work
from vlib.gen import choice
from vlib.judge import call
from vlib.ref import Obj

bsp, iga = igalib.bsp, igalib.iga
REQ, LOW, CAD = [], [], []


def req(f):
    REQ.append(f)
    return f


def low(f):
    LOW.append(f)
    return f


def cadr(f):
    CAD.append(f)
    return f


def badaxis(c, n):
    return int(choice(c.rng, [n, n, n + 1, -n - 1, -n - 1, -n - 2, 7, -9]))


def axis(c, m):
    return int(c.rng.integers(-m.dim, m.dim))


def ends(m, ax):
    p, U = m.degree[ax], m.knots[ax]
    return float(U[p]), float(U[-p - 1])


def outside(c, m, ax):
    """A value outside of the domain: NaN, infinite, far or one float away."""
    a, b = ends(m, ax)
    h = b - a
    k = choice(c.rng, ['nan', 'inf', 'far', 'ulp', 'ulp', 'some', 'some'])
    c.ev('outside:' + k)
    s = c.rng.random() < .5
    if k == 'nan':
        return np.nan
    if k == 'inf':
        return -np.inf if s else np.inf
    if k == 'ulp':
        return float(np.nextafter(a, -np.inf) if s else np.nextafter(b, np.inf))
    d = h * (c.rng.uniform(1e-6, 2) if k == 'some' else 1e6)
    return a - d if s else b + d


def inside(c, m, ax):
    return gen.param(c.rng, m.degree[ax], m.knots[ax])[0]


# ------------------------------------------------------------- methods

@req
def bad_axis(c, m):
    a = badaxis(c, m.dim)
    v = inside(c, m, 0)
    return choice(c.rng, [
        ('insert', (a, v)), ('remove', (a, v)), ('refine', (a, [v])), ('elevate', (a,)), ('clamp', (a,)),
        ('unclamp', (a,)), ('slice', (a, None, None)), ('extract', (a, v)), ('boundary', (a, 0)),
        ('reverse', (a,)), ('reverse', (0, a)), ('remap', (a, 0.0, 1.0)), ('swap', (0, a)), ('swap', (a, -1)),
        ('spans', (a,)), ('breaks', (a,)), ('breaks', (a, True)), ('greville', (a,)),
        ('lagrange', (a,)), ('lobatto', (a,)), ('elevate', (a, 2)), ('insert', (a, v, 0))])


@req
def bad_side(c, m):
    s = choice(c.rng, [2, -1, 3, 7])
    return choice(c.rng, [('clamp', (axis(c, m), s)), ('unclamp', (axis(c, m), s)), ('boundary', (axis(c, m), s)),
                          ('unclamp', (axis(c, m), s, 0))])


@req
def bad_value(c, m):
    a = axis(c, m)
    v = outside(c, m, a)
    lo, hi = ends(m, a)
    return choice(c.rng, [('insert', (a, v)), ('insert', (a, v, 1)), ('remove', (a, v)), ('remove', (a, v, 1, 1.0)),
                          ('extract', (a, v)), ('refine', (a, v)), ('refine', (a, [v, lo + (hi - lo) / 3])),
                          ('refine', (a, [inside(c, m, a) if m.degree[a] > 99 else (lo + hi) / 2, v])),
                          ('slice', (a, v, hi)), ('slice', (a, lo, v)), ('slice', (a, v, None)), ('slice', (a, None, v))])


@req
def bad_count(c, m):
    a = axis(c, m)
    p, U = m.degree[a], m.knots[a]
    v, _, room = work.room(c, m, a)
    r = choice(c.rng, ['insert', 'refine', 'negative', 'remove-', 'elevate-', 'elevate?'])
    if r == 'insert':
        return 'insert', (a, v, room + int(c.rng.integers(1, 4)))
    if r == 'refine':
        x = [v] * (room + int(c.rng.integers(1, 4)))
        if v in ends(m, a) and np.sum(U == v) > p:
            x = [v]
        return 'refine', (a, x)
    if r == 'negative':
        return 'insert', (a, v, -int(c.rng.integers(1, 4)))
    if r == 'remove-':
        return 'remove', (a, v, -int(c.rng.integers(1, 4)))
    if r == 'elevate-':
        return 'elevate', (a, -int(c.rng.integers(1, 4)))
    return 'elevate', (a, choice(c.rng, ['a', [1, 2], np.nan, object()]))


@req
def bad_continuity(c, m):
    a = axis(c, m)
    p = m.degree[a]
    return 'unclamp', (a, choice(c.rng, [None, 0, 1]), int(choice(c.rng, [-1, -2, p, p + 1, p + 7])))


@req
def bad_range(c, m):
    a = axis(c, m)
    lo, hi = ends(m, a)
    x = inside(c, m, a)
    return choice(c.rng, [('slice', (a, x, x)), ('slice', (a, hi, lo)), ('slice', (a, hi, None)), ('slice', (a, None, lo)),
                          ('remap', (a, 1.0, 1.0)), ('remap', (a, 2.0, -1.0)), ('remap', (a, np.nan, 1.0)),
                          ('remap', (a, 0.0, np.nan)), ('remap', (a, 0.0, np.inf)), ('remap', (a, -np.inf, 0.0)),
                          ('remap', (a, -1.5e308, 1.5e308)), ('remap', (a, None, lo)), ('remap', (a, hi, None))])


@req
def bad_permutation(c, m):
    n = m.dim
    full = list(range(n))
    out = [full + [0], full + [n], [n] + full[1:], full[:-1], [-n - 1] + full[1:]]
    if n > 1:
        out += [[0] * n, [0, -n] + full[2:], [n - 1] * n]
    return 'transpose', (choice(c.rng, out),)


@req
def bad_point(c, m):
    """Evaluation and differentiation outside of the domain."""
    a = int(c.rng.integers(m.dim))
    uvw = [inside(c, m, i) for i in range(m.dim)]
    v = outside(c, m, a)
    uvw[a] = choice(c.rng, [v, [v], [inside(c, m, a), v], [v, inside(c, m, a)]])
    kw = dict(zip('uvw', uvw))
    k = choice(c.rng, ['__call__', '__call__', 'evaluate', 'gradient', 'hessian', 'derivative'])
    if k == '__call__' and c.rng.random() < .5:
        kw['fields'] = choice(c.rng, [True, np.zeros(m.shape)])
        if kw['fields'] is True and m.fields is None:
            kw.pop('fields')
    if k == 'derivative':
        kw['order'] = int(c.rng.integers(1, 5))
    return k, (), kw


@req
def bad_order(c, m):
    o = choice(c.rng, [0, 5, -1, 6, 40, -7])
    return choice(c.rng, [('derivative', (o,)), ('derivative', (o, None, inside(c, m, 0)))])


@req
def bad_mapping(c, m):
    return choice(c.rng, [('hessian', (), dict(mapped=True)),
                          ('derivative', (int(c.rng.integers(2, 5)),), dict(mapped=True))])


def sheared(s):
    """Shapes that hold as many numbers as s, or s + (k,), and are neither."""
    s = tuple(s)
    n = int(np.prod(s))
    out = [(n, 1), (1, n), (1,) + s, (2,) + s, s[::-1], s[::-1] + (2,), s[::-1] + (1,), s[1:] + s[:1] + (2,)]
    if len(s) > 1:
        out += [(n,), (n, 2), (s[0] * s[1],) + s[2:], s[:-2] + (s[-2] * s[-1], 3)]
    return [x for x in out if x != s and x[:-1] != s]


@req
def bad_fields(c, m):
    s = m.shape
    F = np.zeros(choice(c.rng, [s[:-1] + (s[-1] + 1,), s[:-1] + (s[-1] + 1, 2), (s[0] + 1,) + s[1:], (s[0] - 1,) + s[1:] + (1,),
                                (int(np.prod(s)) + 1,), s + (1, 1)] + sheared(s)))
    k = choice(c.rng, ['evaluate', 'gradient', 'hessian', 'derivative', '__call__'])
    kw = dict(zip('uvw', [inside(c, m, i) for i in range(m.dim)])) if c.rng.random() < .5 else {}
    if k == '__call__':
        return k, (), dict(kw, fields=F)
    if k == 'derivative':
        return k, (int(c.rng.integers(1, 5)), F), kw
    return k, (F,), kw


@req
def bad_transform(c, m):
    return choice(c.rng, [('transform', (np.eye(5),)), ('transform', (np.eye(2),)), ('transform', (np.ones(4),)),
                          ('transform', (np.ones((4, 3)),)), ('translate', ([1, 2, 3, 4],)), ('move', ([1, 2, 3, 4.],)),
                          ('scale', ([1, 2, 3, 4],)), ('rotate', (1.0, [0, 0, 0])), ('rotate', (1.0, 4)),
                          ('rotate', (1.0, [1, 0, 0, 0])), ('rotate', (1.0, -5)), ('rotate', (1.0, [])),
                          ('translate', (1.0, 5)), ('scale', (2.0, 5)), ('scale', (2.0, -4)), ('translate', (1.0, -4)),
                          ('translate', ([[1, 2, 3]],)), ('scale', ([[1, 2, 3]],)), ('rotate', ('x',)),
                          ('translate', ([1, 2], 0)), ('scale', ([1, 2], 1)), ('move', ([1, 2, 3], 2)), ('translate', (np.ones(3), 1))])


# ---------------------------------------------- constructors and functions

def U2():
    return [0, 0, 1, 1]


@cadr
def constructor(c, m):
    r = c.rng
    n = int(r.integers(2, 6))
    p = int(r.integers(1, n))
    U = np.concatenate([np.zeros(p + 1), np.arange(1, n - p), np.full(p + 1, n - p)])
    P = r.normal(size=(n, 3))
    A, s, W = m.control, m.shape, np.ones
    K = list(m.knots)
    first = (s[0] + 1,) + s[1:]
    wsheared = sheared(s) + [s + (1,)]
    opts = [
        ('no axes', lambda: NURBS([], P)), ('no axes', lambda: NURBS([])),
        ('four axes', lambda: NURBS([U2()] * 4, np.zeros((2, 2, 2, 2, 3)))),
        ('four axes', lambda: NURBS([U2()] * 4)),
        ('short knots', lambda: NURBS([[0, 1, 1]], np.zeros((2, 2)))),
        ('short knots', lambda: NURBS([[0, 0, 1]])),
        ('nested knots', lambda: NURBS([[U2()]], np.zeros((2, 2)))),
        ('one component', lambda: NURBS([U2()], np.zeros((2, 1)))),
        ('five components', lambda: NURBS([U2()], np.zeros((2, 5)))),
        ('too many points', lambda: NURBS([U], np.zeros((len(U) - 1, 3)))),
        ('more points than knots', lambda: NURBS([U], np.zeros((len(U) + 3, 3)))),
        ('degree above n', lambda: NURBS([np.concatenate([np.zeros(n), [.5] * 0, np.ones(n - 1)])] if n > 2 else [U2() + [1]],
                                        np.zeros((n - 1 if n > 2 else 2, 3)))),
        ('weights shape', lambda: NURBS([U], P, weights=np.ones(n + 1))),
        ('weights shape', lambda: NURBS(K, A[..., :3], weights=W(first))),
        ('weights twice', lambda: NURBS([U], np.ones((n, 4)), weights=np.ones(n))),
        ('weights without points', lambda: NURBS([U], weights=np.ones(n))),
        ('fields shape', lambda: NURBS([U], P, fields=np.ones((n + 1, 2)))),
        ('fields shape', lambda: NURBS(K, A, fields=W(first + (1,)))),
        ('fields shape', lambda: NURBS(K, A, fields=W(first))),
        ('fields shape', lambda: NURBS(K, A, fields=W(choice(r, sheared(s))))),
        ('fields shape', lambda: NURBS(K, A, fields=W(choice(r, sheared(s))))),
        ('weights shape', lambda: NURBS(K, A[..., :3], weights=W(choice(r, wsheared)))),
        ('weights shape', lambda: NURBS(K, (A[..., :3], W(choice(r, wsheared))))),
        ('axes of the points', lambda: NURBS(K + [U2()] if m.dim < 3 else K[:2], A)),
        ('not numbers', lambda: NURBS([U], [['a'] * 3] * n)),
        ('not numbers', lambda: NURBS([['a', 'b', 'c', 'd']])),
        ('not knots', lambda: NURBS(5)),
    ]
    name, f = choice(r, opts)
    return 'NURBS: ' + name, f


@cadr
def on_volumes(c, m):
    v = m if m.dim == 3 else cad.grid((2, 1, 2), degree=1)
    return choice(c.rng, [('extrude a volume', lambda: cad.extrude(v, 1)), ('revolve a volume', lambda: cad.revolve(v, 0)),
                          ('ruled volumes', lambda: cad.ruled(v, v)), ('sweep a volume', lambda: cad.sweep(v, cad.line())),
                          ('coons of volumes', lambda: cad.coons([[v, v], [v, v]]))])


@cadr
def dimensions(c, m):
    o = cad.line() if m.dim != 1 else cad.bilinear()
    s = m if m.dim == 2 else cad.bilinear()
    l = cad.line()
    return choice(c.rng, [
        ('join dimensions', lambda: cad.join(m, o, 0)), ('join dimensions', lambda: cad.join(o, m, 0)),
        ('join axis', lambda: cad.join(m, m, m.dim)), ('join axis', lambda: cad.join(m, m, -1)),
        ('join axis', lambda: cad.join(m, m, 9)),
        ('ruled dimensions', lambda: cad.ruled(l, s)), ('ruled dimensions', lambda: cad.ruled(s, l)),
        ('compat dimensions', lambda: cad.compat(m, o)), ('compat axes', lambda: cad.compat(m, m, axes=m.dim)),
        ('compat axes', lambda: cad.compat(m, m, axes=-m.dim - 1)), ('compat option', lambda: cad.compat(m, m, axis=0)),
        ('sweep along a surface', lambda: cad.sweep(l, s)), ('coons of surfaces', lambda: cad.coons([[s, s], [s, s]])),
        ('coons corners', lambda: cad.coons([[l, cad.line((0, 1), (1, 1))], [l, cad.line((1, 0), (1, 1))]])),
    ])


@cadr
def cad_refine(c, m):
    n = m.dim
    p = int(max(m.degree))
    q = int(min(m.degree))
    k = len(m.breaks(0)) - 1
    return choice(c.rng, [
        ('refine factor 0', lambda: cad.refine(m, 0)), ('refine factor -1', lambda: cad.refine(m, -1)),
        ('refine factors', lambda: cad.refine(m, [1] * (n + 1) if n > 1 else [[1] * (k + 1)])),
        ('refine per-span factors', lambda: cad.refine(m, [[1] * (k + 2)] + [1] * (n - 1))),
        ('refine degrees', lambda: cad.refine(m, degree=[p + 1] * (n + 1))),
        ('refine degree 0', lambda: cad.refine(m, degree=0)), ('refine degree -1', lambda: cad.refine(m, degree=-1)),
        ('refine continuity', lambda: cad.refine(m, 2, continuity=p)),
        ('refine continuity', lambda: cad.refine(m, 2, continuity=-q - 1)),
        ('refine continuity', lambda: cad.refine(m, 2, degree=p + 1, continuity=p + 1)),
        ('refine continuities', lambda: cad.refine(m, 2, continuity=[0] * (n + 1)))])


@cadr
def cad_grid(c, m):
    r = c.rng
    p = int(r.integers(1, 5))
    return choice(r, [
        ('grid shape', lambda: cad.grid((0, 2))), ('grid shape', lambda: cad.grid((-1, 2))), ('grid shape', lambda: cad.grid(0)),
        ('grid axes', lambda: cad.grid((2, 2, 2, 2))), ('grid axes', lambda: cad.grid(())),
        ('grid degree', lambda: cad.grid((2, 2), degree=0)), ('grid degree', lambda: cad.grid((2, 2), degree=-p)),
        ('grid degree', lambda: cad.grid((2, 2), degree=[1, 0])), ('grid degrees', lambda: cad.grid((2, 2), degree=[p] * 3)),
        ('grid continuity', lambda: cad.grid((2, 2), degree=p, continuity=p)),
        ('grid continuity', lambda: cad.grid((2, 2), degree=p, continuity=-p - 1)),
        ('grid continuity', lambda: cad.grid((2, 2), degree=p, continuity=[0] * 3)),
        ('grid limits', lambda: cad.grid((2, 2), limits=(0, 1, 2))),
        ('grid limits', lambda: cad.grid((2, 2), limits=[(0, 1)] * 3)),
        ('grid wrap', lambda: cad.grid((2, 2), wrap=[True] * 3))])


@cadr
def primitives(c, m):
    return choice(c.rng, [
        ('circle center', lambda: cad.circle(center=[1, 2, 3, 4])), ('circle radius', lambda: cad.circle('a')),
        ('circle angles', lambda: cad.circle(angle=(0, 1, 2))),
        ('line points', lambda: cad.line([1, 2, 3, 4])), ('line points', lambda: cad.line((0, 0), [1, 2, 3, 4])),
        ('linear points', lambda: cad.linear(np.zeros((3, 2)))), ('linear points', lambda: cad.linear(np.zeros((1, 3)))),
        ('bilinear points', lambda: cad.bilinear(np.zeros((2, 3, 2)))), ('bilinear points', lambda: cad.bilinear(np.zeros((4, 2)))),
        ('trilinear points', lambda: cad.trilinear(np.zeros((2, 2, 2)))),
        ('trilinear points', lambda: cad.trilinear(np.zeros((2, 2, 3, 3)))),
        ('linear points', lambda: cad.linear(np.zeros((2, 5)))),
        ('transform', lambda: transform(np.eye(3))), ('transform', lambda: transform().compose(np.eye(2))),
        ('transform', lambda: transform().translate([1, 2, 3, 4])), ('transform', lambda: transform().rotate(1, 3)),
        ('transform', lambda: transform().rotate(1, [0, 0])), ('transform', lambda: transform().scale(2, 4)),
        ('transform', lambda: transform(np.zeros((4, 4))).invert()),
    ] + ([('revolve point', lambda: cad.revolve(m, [1, 2, 3, 4])), ('revolve axis', lambda: cad.revolve(m, 0, [0, 0, 0])),
          ('revolve axis', lambda: cad.revolve(m, 0, [1, 0, 0, 0])), ('revolve axis', lambda: cad.revolve(m, 0, [])),
          ('extrude displacement', lambda: cad.extrude(m, [1, 2, 3, 4])), ('extrude axis', lambda: cad.extrude(m, 1, 3))]
         if m.dim < 3 else []))


# ------------------------------------------------------------ low level

def lowargs(c):
    p = int(c.rng.integers(1, 6))
    U, _ = gen.knots(c.rng, p, dom='unit')
    n = len(U) - p - 2
    d = int(c.rng.integers(1, 6))
    return p, U, n, c.rng.normal(size=(n + 1, d))


def outof(c, U, p):
    a, b = U[p], U[-p - 1]
    return float(choice(c.rng, [np.nextafter(a, -np.inf), np.nextafter(b, np.inf), a - 1, b + 1, -np.inf, np.inf, np.nan]))


@low
def l_degree(c, m):
    p, U, n, P = lowargs(c)
    q = int(choice(c.rng, [0, -1, -5, len(U), len(U) // 2 + 1]))
    u = float((U[p] + U[-p - 1]) / 2)
    # P has n+1 = len(U)-p-1 rows: any other degree contradicts the sizes
    return choice(c.rng, [
        ('FindSpan', lambda: bsp.FindSpan(q, U, u)), ('FindMult', lambda: bsp.FindMult(q, U, u)),
        ('FindSpanMult', lambda: bsp.FindSpanMult(q, U, u)),
        ('EvalBasisFuns', lambda: bsp.EvalBasisFuns(q, U, u)), ('EvalBasisFunsDers', lambda: bsp.EvalBasisFunsDers(q, U, u)),
        ('SpanIndex', lambda: bsp.SpanIndex(q, U)), ('Greville', lambda: bsp.Greville(q, U)), ('iga.Greville', lambda: iga.Greville(q, U)),
        ('InsertKnot', lambda: bsp.InsertKnot(q, U, P, u)), ('RemoveKnot', lambda: bsp.RemoveKnot(q, U, P, u, 1e-9)),
        ('Clamp', lambda: bsp.Clamp(q, U, P)), ('Unclamp', lambda: bsp.Unclamp(q, U, P)),
        ('RefineKnotVector', lambda: bsp.RefineKnotVector(q, U, P, [u])), ('DegreeElevate', lambda: bsp.DegreeElevate(q, U, P, 1)),
        ('Extract', lambda: bsp.Extract(q, U, P, u)), ('Evaluate1', lambda: bsp.Evaluate1(q, U, P, [u])),
        ('BasisData', lambda: iga.BasisData(q, U)), ('BasisDataCol', lambda: iga.BasisDataCol(q, U, [u]))])


@low
def l_value(c, m):
    p, U, n, P = lowargs(c)
    x = outof(c, U, p)
    if not np.isfinite(x) and np.isnan(x):
        x = np.inf
    u = float((U[p] + U[-p - 1]) / 2)
    return choice(c.rng, [('InsertKnot u', lambda: bsp.InsertKnot(p, U, P, x)), ('InsertKnot u', lambda: bsp.InsertKnot(p, U, P, x, 1)),
                          ('RemoveKnot u', lambda: bsp.RemoveKnot(p, U, P, x, 1e-9)), ('InsertKnot u', lambda: bsp.InsertKnot(p, U, P, x, 0)),
                          ('RefineKnotVector X', lambda: bsp.RefineKnotVector(p, U, P, sorted([u, x])))])


@low
def l_count(c, m):
    p, U, n, P = lowargs(c)
    u = float((U[p] + U[-p - 1]) / 2)
    big = int(choice(c.rng, [p + 1, p + 2, 40, 2 ** 31 - 1]))
    neg = int(choice(c.rng, [-1, -2, -2 ** 31]))
    r = choice(c.rng, [big, neg])
    inner = U[(U > U[p]) & (U < U[-p - 1])]
    v = float(choice(c.rng, inner)) if len(inner) else u
    more = p - int(np.sum(U == v)) + 1
    return choice(c.rng, [
        ('InsertKnot r', lambda: bsp.InsertKnot(p, U, P, u, r)), ('RemoveKnot r', lambda: bsp.RemoveKnot(p, U, P, u, 1e-9, r)),
        ('InsertKnot multiplicity', lambda: bsp.InsertKnot(p, U, P, v, more)),
        ('RemoveKnot multiplicity', lambda: bsp.RemoveKnot(p, U, P, v, 1e-9, p - more + 2)),
        ('DegreeElevate t', lambda: bsp.DegreeElevate(p, U, P, neg)),
        ('EvalBasisFunsDers d', lambda: bsp.EvalBasisFunsDers(p, U, u, r)),
        ('BasisData d', lambda: iga.BasisData(p, U, r)), ('BasisDataCol d', lambda: iga.BasisDataCol(p, U, [u], r)),
        ('BasisData q', lambda: iga.BasisData(p, U, p, int(choice(c.rng, [0, 11, -1, 12, 2 ** 31 - 1])))),
        ('Unclamp C', lambda: bsp.Unclamp(p, U, P, int(choice(c.rng, [p, p + 1, -1, neg]))))])


@low
def l_rules(c, m):
    q = int(choice(c.rng, [0, -1, 11, 12, 100, 2 ** 31 - 1, -2 ** 31]))
    l = int(choice(c.rng, [1, q]))
    p = int(c.rng.integers(1, 5))
    E = int(c.rng.integers(1, 5))
    return choice(c.rng, [
        ('GaussLegendreRule', lambda: iga.GaussLegendreRule(q)), ('GaussLobattoRule', lambda: iga.GaussLobattoRule(l)),
        ('KnotVector E', lambda: iga.KnotVector(int(choice(c.rng, [0, -1, -5])), p)),
        ('KnotVector p', lambda: iga.KnotVector(E, int(choice(c.rng, [0, -1])))),
        ('KnotVector C', lambda: iga.KnotVector(E, p, int(choice(c.rng, [-1, p, p + 1, -9]))))])


@low
def l_sizes(c, m):
    """Arrays that contradict each other."""
    p, U, n, P = lowargs(c)
    u = float((U[p] + U[-p - 1]) / 2)
    V = U[:-1]
    Q = choice(c.rng, [P[:-1], np.concatenate([P, P[:1]]), P[:1]])
    A = np.ones((n + 1, 4))
    k = int(c.rng.integers(1, 4))
    Us, sh = [U2()] * k, (2,) * k
    name, F = choice(c.rng, [('Gradient', Q), ('Gradient', Q), ('Hessian', Q), ('ThirdDer', Q), ('FourthDer', Q)])
    der = getattr(bsp, name + '1')
    return choice(c.rng, [
        ('Evaluate1 sizes', lambda: bsp.Evaluate1(p, U, Q, [u])), ('Evaluate1 sizes', lambda: bsp.Evaluate1(p, V, P, [u])),
        ('Extract sizes', lambda: bsp.Extract(p, U, Q, u)), ('InsertKnot sizes', lambda: bsp.InsertKnot(p, V, P, u)),
        ('RemoveKnot sizes', lambda: bsp.RemoveKnot(p, U, Q, u, 1e-9)), ('Clamp sizes', lambda: bsp.Clamp(p, U, Q)),
        ('Unclamp sizes', lambda: bsp.Unclamp(p, V, P)), ('RefineKnotVector sizes', lambda: bsp.RefineKnotVector(p, U, Q, [u])),
        ('DegreeElevate sizes', lambda: bsp.DegreeElevate(p, V, P, 1)),
        (name + '1 fields', lambda: der(0, p, U, A, F, [u])), (name + '1 points', lambda: der(0, p, U, F, A, [u])),
        ('Evaluate2 sizes', lambda: bsp.Evaluate2(1, U2(), 1, U2(), np.ones((2, 3, 4)), [0.5], [0.5])),
        ('Evaluate3 sizes', lambda: bsp.Evaluate3(1, U2(), 1, U2(), 1, U2(), np.ones((2, 2, 3, 4)), [.5], [.5], [.5])),
        ('Gradient2 sizes', lambda: bsp.Gradient2(0, 1, U2(), 1, U2(), np.ones((2, 2, 4)), np.ones((2, 3, 1)), [.5], [.5])),
        ('Gradient3 sizes', lambda: bsp.Gradient3(0, 1, U2(), 1, U2(), 1, U2(), np.ones((2, 2, 2, 4)), np.ones((3, 2, 2, 1)),
                                                  [.5], [.5], [.5])),
        ('few knots', lambda: bsp.FindSpan(p, U[:2 * p + 1], u)), ('few knots', lambda: iga.BasisData(p, U[:2 * p + 1])),
    ])


@low
def l_span(c, m):
    p, U, n, P = lowargs(c)
    u = float((U[p] + U[-p - 1]) / 2)
    s = int(choice(c.rng, [p - 1, 0 if p > 0 else p - 1, n + 1, n + 2, len(U), 10 ** 6, 2 ** 31 - 1]))
    return choice(c.rng, [('EvalBasisFuns span', lambda: bsp.EvalBasisFuns(p, U, u, s)),
                          ('EvalBasisFunsDers span', lambda: bsp.EvalBasisFunsDers(p, U, u, p, s)),
                          ('FindMult span', lambda: bsp.FindMult(p, U, u, s))])


@low
def l_map(c, m):
    k = int(c.rng.integers(1, 4))
    f = getattr(bsp, choice(c.rng, ['Hessian', 'ThirdDer', 'FourthDer']) + str(k))
    A = np.ones((2,) * k + (4,))
    return f.__name__ if hasattr(f, '__name__') else 'mapped derivative', lambda: f(
        choice(c.rng, [1, -1]), *([1, U2()] * k), A, A, *([[.5]] * k))


# ---------------------------------------------------------------- execution

def attempt(c, what, f):
    try:
        r = f()
    except Exception as e:
        c.ev('refused')
        c.ev('refused:' + type(e).__name__)
        return
    except BaseException as e:
        c.fail('invalid request: %s leaves the program (%s)' % (what, type(e).__name__))
    c.fail('invalid request accepted: %s' % what, result=repr(r)[:200])


def snapshot(m):
    return Obj.of(m), [np.array(U) for U in m.knots], np.array(m.array), m.fields is None


def unharmed(c, m, s, what):
    o = s[0]
    for i, (a, b) in enumerate(zip(m.knots, s[1])):
        c.same(a, b, 'refused request changed the object: %s: knots' % what)
    c.check(len(m.knots) == len(s[1]), 'refused request changed the object: %s: axes' % what)
    c.same(m.array, s[2], 'refused request changed the object: %s: control data' % what)
    c.check(tuple(m.shape) == tuple(o.shape) and tuple(m.degree) == tuple(o.degree) and m.dim == o.dim,
            'refused request changed the object: %s: shape or degree' % what)


def case(c):
    m = work.obj(c)
    pre = snapshot(m)
    log = []
    for _ in range(10):
        f = choice(c.rng, REQ)
        r = f(c, m)
        if r is None:
            continue
        name, args = r[0], r[1]
        kw = r[2] if len(r) > 2 else {}
        log.append((name, args, kw))
        what = '%s(%s)' % (name, ', '.join([short(a) for a in args] + ['%s=%s' % (k, short(v)) for k, v in sorted(kw.items())]))
        c.note(request=what)
        attempt(c, '%s on %s' % (what, c.tag['degs']), lambda: getattr(m, name)(*args, **kw))
        unharmed(c, m, pre, what)
        c.ev('request:' + f.__name__)
        c.ev('method:' + name)
    for pool, n in ((CAD, 4), (LOW, 6)):
        for _ in range(n):
            f = choice(c.rng, pool)
            what, g = f(c, m)
            c.note(request=what)
            attempt(c, what, g)
            unharmed(c, m, pre, what)
            c.ev('request:' + f.__name__)
    # still usable
    args = work.uvw(c, m)
    call(c, m, '__call__', *args)
    a = axis(c, m)
    for _ in range(2):
        k = choice(c.rng, ['refine', 'elevate', 'slice', 'reverse', 'gradient', 'insert'])
        if k == 'refine':
            call(c, m, k, a, work.knot_list(c, m, a, ['inner', 'knot'], near=False))
        elif k == 'elevate':
            if m.degree[a] > 3 or m.array.size > 3000:
                continue
            call(c, m, k, a)
        elif k == 'slice':
            call(c, m, k, a, *work.interval(c, m.degree[a], m.knots[a]))
        elif k == 'reverse':
            call(c, m, k, a)
        elif k == 'insert':
            x = work.knot_list(c, m, a, ['inner', 'knot'], 1, near=False)
            if x:
                call(c, m, k, a, x[0], len(x))
        else:
            call(c, m, k)
        c.ev('used-afterwards')
    c.nontrivial(pre[2], *[x for r in log for x in (r[0], str(r[1]))])


def short(x):
    if isinstance(x, np.ndarray):
        return 'array%s' % (x.shape,)
    return repr(x)[:80]
