"""What the plotter hands to its drawing backends: a recording backend gets the
arrays, the matplotlib backend runs with recording axes, and the mayavi backend
runs on stand-in modules that only record the data set it builds."""
import sys, types
import numpy as np
from igakit import cad
from igakit.plot import Plotter
from .. import gen, judge, work
from ..gen import choice
from ..ref import Obj, L, EPS

KE = 2000.0


class Rec(object):
    """A backend module that records the calls."""

    def __init__(self, r1, r2):
        self.calls = []
        self._resolution = {1: r1, 2: r2}

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
            return None
        return f

    def drawn(self):
        """All that was handed over, as it was."""
        def flat(x):
            if isinstance(x, np.ndarray):
                return np.array(x)
            if isinstance(x, (list, tuple)):
                return [flat(y) for y in x]
            if isinstance(x, dict):
                return [[y, flat(x[y])] for y in sorted(x)]
            return x if isinstance(x, (str, int, float, bool, type(None))) else type(x).__name__
        return [[n, flat(a), flat(k)] for n, a, k in self.calls]


def stack(xyz):
    """(x, y, z) arrays as handed over (axes reversed) -> points[..., 3]"""
    x, y, z = (np.asarray(t) for t in xyz)
    return np.stack([x.T, y.T, z.T], -1)


def breaks(pre, i):
    p, U = pre.degree[i], pre.knots[i]
    return np.unique(U[p:len(U) - p])


def span(pre, i, n):
    p, U = pre.degree[i], pre.knots[i]
    return np.linspace(U[p], U[-p - 1], n)


def geo(pre, uvw):
    o = Obj(pre.knots, pre.array[..., :4])
    V, E = o.eval(uvw)
    # the parameters of a drawn line are only known up to rounding
    if not hasattr(pre, 'blur'):
        pre.blur = sum(judge.slope(o, i) * (.02 * np.max(np.abs(pre.knots[i]))) for i in range(pre.dim))
    return V, E + pre.blur


def match(c, got, want, what):
    """got, want: lists of (points[, scale]); equal up to order of the list and
    transposition / direction of traversal of every piece."""
    if len(got) != len(want):
        c.fail(what + ': number of pieces', got=len(got), want=len(want))
    left = list(range(len(want)))
    for k, g in enumerate(got):
        hit = None
        for i in ([left[0]] + left if left else []):
            V, E = want[i]
            for v, e in views(V, E):
                if g.shape == v.shape and np.all(np.abs(g - v) <= KE * EPS * e + 1e-300):
                    hit = i
                    break
            if hit is not None:
                break
        if hit is None:
            V, E = want[left[0]]
            c.near(g, V, E, what + ': a drawn piece is none of those of the object (compared with the next one)', K=KE)
        left.remove(hit)
        c.ev('vertices', g[..., 0].size)


def views(V, E):
    yield V, E
    yield V[::-1], E[::-1]
    if V.ndim == 3:
        for a, b in ((V, E), (V[::-1], E[::-1])):
            yield a.swapaxes(0, 1), b.swapaxes(0, 1)
            yield a[:, ::-1], b[:, ::-1]


# what each request must show: ('points'|'lines'|'surfs', [pieces])

def want_cpoint(pre, r):
    C = pre.coords()
    return 'points', [(C, np.abs(C) * 4)]


def want_cwire(pre, r):
    return 'lines', want_cpoint(pre, r)[1]


def want_kpoint(pre, r):
    return 'points', [geo(pre, [breaks(pre, i) for i in range(pre.dim)])]


def want_kwire(pre, r, axes=None):
    out = []
    axes = range(pre.dim) if axes is None else [range(pre.dim)[a] for a in np.atleast_1d(axes)]
    for ax in axes:
        uvw = [breaks(pre, i) for i in range(pre.dim)]
        uvw[ax] = span(pre, ax, r[1])
        V, E = geo(pre, uvw)
        V, E = (np.moveaxis(x, ax, -2).reshape((-1, r[1], 3)) for x in (V, E))
        out += list(zip(V, E))
    return 'lines', out


def want_ksurf(pre, r, axes=None):
    out = []
    axes = range(pre.dim) if axes is None else [range(pre.dim)[a] for a in np.atleast_1d(axes)]
    for ax in axes:
        for u in breaks(pre, ax):
            uvw = [span(pre, i, r[2]) for i in range(pre.dim)]
            uvw[ax] = np.array([u])
            V, E = geo(pre, uvw)
            out.append((np.squeeze(V, ax), np.squeeze(E, ax) * 50))
    return 'surfs', out


def want_curve(pre, r):
    out = []
    for ax in range(pre.dim):
        others = [i for i in range(pre.dim) if i != ax]
        for bits in range(2 ** len(others)):
            uvw = [None] * pre.dim
            uvw[ax] = span(pre, ax, r[1])
            for k, i in enumerate(others):
                uvw[i] = np.array([pre.domain(i)[bits >> k & 1]])
            V, E = geo(pre, uvw)
            piece = (V.reshape(-1, 3), E.reshape(-1, 3) * 50)
            # a volume's edges are drawn once per face
            out += [piece] * {1: 1, 2: 1, 3: 2}[pre.dim]
    return 'lines', out


def want_surface(pre, r):
    out = []
    for ax in range(pre.dim) if pre.dim == 3 else [None]:
        for s in (0, 1) if ax is not None else (0,):
            uvw = [span(pre, i, r[2]) for i in range(pre.dim)]
            if ax is not None:
                uvw[ax] = np.array([pre.domain(ax)[s]])
            V, E = geo(pre, uvw)
            if ax is not None:
                V, E = np.squeeze(V, ax), np.squeeze(E, ax)
            out.append((V, E * 50))
    return 'surfs', out


def want_plot(pre, r):
    return want_curve(pre, r) if pre.dim == 1 else want_surface(pre, r)


WANT = dict(cpoint=[want_cpoint], cwire=[want_cwire], kpoint=[want_kpoint], kwire=[want_kwire],
            ksurf=[want_ksurf], curve=[want_curve], surface=[want_surface], volume=[want_surface],
            plot=[want_plot], cplot=[want_cpoint, want_cwire], kplot=[want_kpoint, want_kwire])


def pieces(calls):
    """recorded backend calls -> {'points': [...], 'lines': [...], 'surfs': [...]}"""
    out = dict(points=[], lines=[], surfs=[])
    for name, a, k in calls:
        if name == 'points3d':
            out['points'].append(stack(a[:3]))
        elif name == 'line3d':
            out['lines'] += [stack(t) for t in (a[0] if a else k['lines'])]
        elif name == 'surf3d':
            out['surfs'] += [stack(t) for t in (a[0] if a else k['surfs'])]
    return out


def requests(c, dim):
    names = ['cpoint', 'cwire', 'kpoint', 'kwire', 'curve', 'plot', 'cplot', 'kplot']
    if dim > 1:
        names += ['surface', 'ksurf']
    if dim > 2:
        names += ['volume']
    return names


def options(c, name):
    kw = {}
    if c.rng.random() < .4:
        kw['color'] = choice(c.rng, [(1, 0, 0), (0, .5, .5)])
    if name in ('curve', 'cwire', 'kwire') and c.rng.random() < .4:
        kw['mode'] = choice(c.rng, ['line', 'tube'])
    if c.rng.random() < .2:
        kw['opacity'] = .5
    return kw


def axes_arg(c, dim):
    a = [int(x) - (dim if c.rng.random() < .3 else 0) for x in c.rng.permutation(dim)[:int(c.rng.integers(1, dim + 1))]]
    return choice(c.rng, [list, tuple])(a) if len(a) > 1 or c.rng.random() < .5 else a[0]


def grid(c):
    o = cad.grid(choice(c.rng, [(110,), (150, 2), (11, 120), (1, 300), (12, 2, 11), (2, 10, 12)]), int(c.rng.integers(1, 3)))
    o.array[..., :3] += c.rng.normal(size=o.shape + (3,)) * .05
    return o


def case(c):
    many = c.idx % 4 < 2 and c.rng.random() < .06     # an object of many elements
    nrb = grid(c) if many else work.obj(c)
    pre = Obj.of(nrb)
    which = ['rec', 'rec', 'mpl', 'myv'][c.idx % 4]
    r = {1: int(c.rng.integers(2, 12)), 2: int(c.rng.integers(2, 6))}
    names = requests(c, pre.dim)
    names = [names[i] for i in c.rng.permutation(len(names))[:4]]
    if many:
        names = [choice(c.rng, ['kwire', 'cwire', 'kpoint', 'kplot', 'cplot'] + ['ksurf'] * (pre.dim > 1))]
        r = {1: 2, 2: 2}
        c.ev('many elements')
    c.note(backend=which, requests=names)
    for name in names:
        kw = options(c, name)
        args = dict(kw)
        wkw = {}
        if name in ('kwire', 'ksurf') and c.rng.random() < .5:
            wkw['axes'] = axes_arg(c, pre.dim)
        if name in ('cplot', 'kplot'):
            kw.pop('mode', None)
        kw.update(wkw)
        want = dict(points=[], lines=[], surfs=[])
        for f in WANT[name]:
            k, ps = f(pre, r, **wkw)
            want[k] = want[k] + ps
        BACK[which](c, nrb, name, kw, r, want)
        post = Obj.of(nrb)
        c.same(post.array, pre.array, name + ' changed the object')
        for a, b in zip(post.knots, pre.knots):
            c.same(a, b, name + ' changed the knots')
        c.ev('%s:%s' % (which, name))
    if which == 'rec':
        raw_points(c)
    c.nontrivial(pre.array, *pre.knots)


def raw_points(c):
    rec = Rec(2, 2)
    pl = Plotter()
    pl._backend = rec
    n = int(c.rng.integers(1, 4))
    shape = [(), (5,), (3, 4)][int(c.rng.integers(3))]
    P = c.rng.normal(size=shape + (n,))
    pl.points(P if c.rng.random() < .5 else P.tolist())
    Q = np.zeros(shape + (3,))
    Q[..., :n] = P
    Q = np.atleast_2d(Q)
    (name, a, k), = rec.calls
    c.check(name == 'points3d', 'points: backend call')
    c.same(stack(a[:3]), Q, 'points: coordinates')
    m = int(c.rng.integers(1, 4))
    D = c.rng.normal(size=shape + (m,))
    pl.quiver(P, D)
    name, a, k = rec.calls[1]
    c.check(name == 'quiver3d', 'quiver: backend call')
    c.same(stack(a[:3]), Q, 'quiver: coordinates')
    W = np.zeros(shape + (3,))
    W[..., :m] = D
    c.same(stack(a[3:6]), np.atleast_2d(W), 'quiver: vectors')
    c.ev('raw-points')


def by_rec(c, nrb, name, kw, r, want):
    pl = Plotter()
    pl._backend = rec = Rec(r[1], r[2])
    getattr(pl, name)(nrb, **kw)
    got = pieces(rec.calls)
    for k in want:
        match(c, got[k], want[k], '%s: %s' % (name, k))


# ------------------------------------------------------------ matplotlib

def by_mpl(c, nrb, name, kw, r, want):
    import matplotlib.pyplot as mpl
    from mpl_toolkits.mplot3d import Axes3D
    import igakit.plot_mpl as mod
    if name == 'quiver':
        return
    calls = []
    saved = {k: getattr(Axes3D, k) for k in ('scatter', 'plot', 'plot_wireframe', 'plot_surface')}
    real = c.idx % 24 == 2

    def recorder(k, orig):
        def f(self, *a, **kk):
            calls.append((k, [np.array(x) for x in a[:3]]))
            return orig(self, *a, **kk) if real else None
        return f
    res = mod._resolution
    mod._resolution = dict(r)
    for k in saved:
        setattr(Axes3D, k, recorder(k, saved[k]))
    try:
        pl = Plotter()
        pl.use('mpl')
        pl.figure()
        getattr(pl, name)(nrb, **kw)
    finally:
        for k in saved:
            setattr(Axes3D, k, saved[k])
        mod._resolution = res
        mpl.close('all')
    if real:
        c.ev('mpl:drawn')
    got = dict(points=[], segs=[], surfs=[])
    for k, xyz in calls:
        P = np.stack(xyz, -1)
        if k == 'scatter':
            got['points'].append(P)
        elif k == 'plot_surface':
            got['surfs'].append(P)
        elif k == 'plot':
            got['segs'] += segments(P)
        else:
            got['segs'] += segments(P)
    # points come flattened, in any order of the axes
    flatw = [(V.reshape(-1, 3), E.reshape(-1, 3)) for V, E in want['points']]
    cloud(c, got['points'], flatw, name)
    match(c, got['surfs'], [w for w in want['surfs'] if w[0].ndim == 3], name + ': surfaces')
    edges(c, got['segs'], want['lines'], name)


def segments(P):
    """drawn segments of a polyline or wireframe grid"""
    out = []
    for ax in range(P.ndim - 1):
        A = np.moveaxis(P, ax, 0)
        out += list(zip(A[:-1].reshape(-1, 3), A[1:].reshape(-1, 3)))
    return out


def cloud(c, got, want, what):
    c.check(len(got) == len(want), what + ': number of point sets')
    for G, (V, E) in zip(got, want):
        c.check(G.shape == V.shape, what + ': number of points', got=G.shape, want=V.shape)
        free = np.ones(len(V), bool)
        near = Near(V, E)
        for g in G:
            ok = near(g)
            ok = ok[free[ok]]
            c.check(len(ok), what + ': a drawn point is not one of the object', point=g)
            free[np.min(ok)] = False
        c.ev('vertices', len(G))


class Near(object):
    """Finds the rows of V that agree with a point."""

    def __init__(self, V, E):
        self.V, self.T = V, KE * EPS * E + 1e-300
        self.order = np.argsort(V[:, 0])
        self.x = V[self.order, 0]
        self.most = np.max(self.T[:, 0]) if len(V) else 0

    def __call__(self, p):
        i = int(np.searchsorted(self.x, p[0] - 2 * self.most, 'left'))
        j = int(np.searchsorted(self.x, p[0] + 2 * self.most, 'right'))
        k = self.order[i:j]
        return k[np.all(np.abs(self.V[k] - p) <= self.T[k], -1)]


def edges(c, segs, want, what):
    """the set of drawn segments is the set of segments of the pieces"""
    A, B, EA, EB = [], [], [], []
    for V, E in want:
        for (s, t), (es, et) in zip(segments(V), segments(E)):
            A.append(s), B.append(t), EA.append(es), EB.append(et)
    if not A:
        return c.check(not segs, what + ': lines out of nowhere')
    A, B, EA, EB = (np.array(x) for x in (A, B, EA, EB))
    seen = np.zeros(len(A), bool)
    na, nb = Near(A, EA), Near(B, EB)
    for s, t in segs:
        ok = np.concatenate([np.intersect1d(na(s), nb(t)), np.intersect1d(na(t), nb(s))])
        c.check(len(ok), what + ': a drawn segment is not one of the object', segment=np.array([s, t]))
        seen[ok] = True
    c.check(np.all(seen), what + ': a segment of the object is not drawn', missing=int(np.sum(~seen)), of=len(seen))
    c.ev('segments', len(segs))


# ------------------------------------------------------------ mayavi

class PolyData(object):
    def __init__(self):
        self.point_data = types.SimpleNamespace()
        self.data = {}
        PolyData.made.append(self)
    made = []

    def set(self, **kw):
        self.data.update({k: v for k, v in kw.items() if v is not None})


class PD(types.SimpleNamespace):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, types.SimpleNamespace(v=v) if isinstance(v, np.ndarray) else v)


def stub():
    if 'mayavi' in sys.modules:
        return
    m = lambda n: sys.modules.setdefault(n, types.ModuleType(n))
    mayavi, tools, hf, src, tl = (m(x) for x in ('mayavi', 'mayavi.tools', 'mayavi.tools.helper_functions',
                                                 'mayavi.tools.sources', 'mayavi.tools.tools'))
    mlab = types.ModuleType('mayavi.mlab')
    sys.modules['mayavi.mlab'] = mlab
    mayavi.mlab, mayavi.tools = mlab, tools
    tools.helper_functions, tools.sources, tools.tools = hf, src, tl
    for k in ('figure gcf clf close savefig show title xlabel ylabel zlabel colorbar quiver3d').split():
        setattr(mlab, k, lambda *a, **kw: None)
    MLAB['points'] = []
    mlab.points3d = lambda x, y, z, **kw: MLAB['points'].append(stack((x, y, z)))
    hf.List = hf.Array = lambda *a, **k: None
    hf.Callable = lambda f: f
    hf.Plot3d = hf.Mesh = object
    hf.document_pipeline = lambda o: lambda *a, **k: o._source_function(*a, **k)

    class MlabSource(object):
        dataset = None

        def set(self, trait_change_notify=True, **kw):
            self.__dict__.update(kw)
    src.MlabSource = MlabSource
    src.convert_to_arrays = lambda args: tuple(np.asarray(a) for a in args)
    tl.add_dataset = lambda ds, name=None, **kw: ds
    tv, api = m('tvtk'), m('tvtk.api')
    tv.api = api

    class Data(PolyData):
        def __init__(self):
            PolyData.__init__(self)
            self.point_data = PD()
    api.tvtk = types.SimpleNamespace(PolyData=Data)


MLAB = {}


def by_myv(c, nrb, name, kw, r, want):
    stub()
    import igakit.plot_myv as mod
    mod._resolution = dict(r)
    MLAB['points'][:] = []
    PolyData.made[:] = []
    pl = Plotter()
    pl.use('myv')
    getattr(pl, name)(nrb, **kw)
    match(c, MLAB['points'], want['points'], name + ': points')
    segs, quads = [], []
    for pd in PolyData.made:
        P = pd.data['points']
        for key, out in (('lines', segs), ('polys', quads)):
            if key in pd.data:
                ix = np.asarray(pd.data[key])
                c.check(ix.size == 0 or (ix.min() >= 0 and ix.max() < len(P)), name + ': vertex numbers out of range')
                if key == 'lines':
                    out += [(P[a], P[b]) for a, b in ix]
                else:
                    out += [P[list(q)] for q in ix]
    edges(c, segs, want['lines'], name)
    surf = [w for w in want['surfs'] if w[0].ndim == 3]
    if not surf:
        return c.check(not quads, name + ': cells out of nowhere')
    Q = np.concatenate([cells(V) for V, E in surf])
    S = np.concatenate([cells(E) for V, E in surf])
    seen = np.zeros(len(Q), bool)
    for q in quads:
        # the same four corners in the same cyclic order
        ok = np.zeros(len(Q), bool)
        for k in range(4):
            for d in (1, -1):
                p = [(k + d * j) % 4 for j in range(4)]
                ok |= np.all(np.abs(Q - q[p]) <= KE * EPS * S + 1e-300, (-1, -2))
        c.check(np.any(ok), name + ': a drawn cell is not one of the surface', cell=q)
        seen |= ok
    c.check(np.all(seen), name + ': a cell of the surface is not drawn')
    c.ev('cells', len(quads))


def cells(V):
    return np.stack([V[:-1, :-1], V[1:, :-1], V[1:, 1:], V[:-1, 1:]], 2).reshape(-1, 4, 3)


BACK = dict(rec=by_rec, mpl=by_mpl, myv=by_myv)
