"""No hidden state.

A list of jobs is generated in which many jobs are alike: the same request on
objects that share their degrees, their shape, their knots or their control
points, the same file name with another content, the same call with one
argument changed, refused requests among them.  Every job is first run alone,
in a process of its own that has not used the package before; then all of them
run in one process, in several orders, repeatedly, and under another random
seed, print options, directory and garbage collection.  Each must return what it
returned alone.  In a second monitor one object is queried and changed in
turns; after each change it has to answer like an object newly built from its
knots and control data."""
import gc, os, pickle, random, sys, warnings
import numpy as np
from igakit import cad, io, igalib
from igakit.nurbs import NURBS
from igakit.plot import Plotter
from igakit.transform import transform
from vlib import gen, native
from vlib.case import L
from vlib.gen import choice
from .c25 import Rec


# ------------------------------------------------------------------ outcomes

def flat(x):
    if isinstance(x, NURBS):
        return ['object', np.array(x.array)] + [np.array(k) for k in x.knots]
    if isinstance(x, transform):
        return ['transform', np.array(x.matrix)]
    if isinstance(x, (tuple, list)):
        return [len(x)] + [flat(y) for y in x]
    if isinstance(x, dict):
        return [flat([k, x[k]]) for k in sorted(x)]
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (float, np.floating)):
        return np.float64(x)
    if isinstance(x, (bool, int, str, bytes, type(None), np.integer)):
        return x
    return type(x).__name__


RAW = None


def outcome(f):
    try:
        r = f()
        if RAW is not None:
            RAW.append(r)
        return flat(r)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return ['raised', type(e).__name__]


def alike(a, b):
    """Equal, floating point numbers up to rounding in the last places."""
    if type(a) is not type(b):
        return isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and a == b
    if isinstance(a, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, np.float64)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.tobytes() == b.tobytes():
            return True
        if a.dtype.kind not in 'fc':
            return bool(np.array_equal(a, b))
        fin = np.isfinite(a)
        if not np.array_equal(fin, np.isfinite(b)):
            return False
        s = np.max(np.abs(a[fin])) if fin.any() else 0.0
        return bool(np.all(np.abs(a[fin] - b[fin]) <= 1e-11 * s))
    return a == b


def brief(x):
    if isinstance(x, list):
        return [brief(y) for y in x[:6]]
    if isinstance(x, np.ndarray):
        return repr(x.ravel()[:8])
    return repr(x)[:80]


def arrays(x, depth=0):
    """All arrays in a result, those of its objects included."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, NURBS):
        return [x.array] + list(x.knots)
    if isinstance(x, transform):
        return [x.matrix]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)) and depth < 5:
        return [a for y in x for a in arrays(y, depth + 1)]
    return []


def scribble(results, keep):
    """The caller may do what it likes with the arrays it got: fill them with
    rubbish, unless they are views of what the jobs were given."""
    n = 0
    for a in arrays(results):
        if a.flags.writeable and a.size and a.dtype.kind in 'fi' and not any(np.may_share_memory(a, k) for k in keep):
            a[...] = -7
            n += 1
    return n


def given(jobs):
    """The arrays that the jobs hold."""
    out, seen = [], set()

    def walk(f, depth=0):
        if id(f) in seen or depth > 8:
            return
        seen.add(id(f))
        if isinstance(f, np.ndarray):
            out.append(f)
        elif isinstance(f, (list, tuple)):
            for y in f:
                walk(y, depth + 1)
        elif isinstance(f, Data):
            walk([f.U, f.P, f.w, f.F], depth + 1)
        elif isinstance(f, (NURBS, transform)):
            out.extend(arrays(f))
        elif hasattr(f, '__code__'):
            walk([x.cell_contents for x in f.__closure__ or ()] + list(f.__defaults__ or ()), depth + 1)
    walk([f for _, f in jobs])
    return out


# ------------------------------------------------------------------ jobs

class Data(object):
    """What an object is built from."""

    def __init__(self, U, P, w, F):
        self.U, self.P, self.w, self.F = U, P, w, F

    def build(self):
        return NURBS([np.array(U) for U in self.U], self.P, fields=self.F, weights=self.w)

    def shape(self):
        return self.P.shape[:-1]


def twins(rng, n, dim=None):
    """n sets of data that agree in almost everything."""
    U, P, w, F, tag = gen.nurbs_data(rng, dim=dim, maxspan=4, maxdeg=4, ends=choice(rng, ['clamped', 'clamped', None]))
    degs = tag['degs']
    base = Data(U, P, w, F)
    out = [base]
    for _ in range(n - 1):
        k = choice(rng, ['points', 'one', 'weights', 'fields', 'count', 'knots', 'knots', 'flip', 'domain', 'same', 'spline', 'knot', 'knot', 'end'])
        d = Data(base.U, base.P, base.w, base.F)
        if k == 'points':
            d.P = rng.normal(size=P.shape)
        elif k == 'one':
            d.P = P.copy()
            d.P[tuple(int(rng.integers(s)) for s in P.shape)] += 1.0
        elif k == 'weights':
            d.w = rng.uniform(.5, 2, P.shape[:-1])
        elif k == 'fields':
            d.F = rng.normal(size=P.shape[:-1] + (1 if F is None else F.shape[-1],))
        elif k == 'count':
            d.F = None if F is not None else rng.normal(size=P.shape[:-1])
        elif k == 'knots':
            d.U = []
            for p, V in zip(degs, U):
                x = np.unique(V)
                y = x.copy()
                for j in range(1, len(x) - 1):
                    if V[p] < x[j] < V[-p - 1]:
                        y[j] += rng.uniform(-.3, .3) * min(x[j + 1] - x[j], x[j] - x[j - 1])
                d.U.append(y[np.searchsorted(x, V)])
        elif k in ('knot', 'end'):      # one break of one axis, or one end
            i = int(rng.integers(len(U)))
            x = np.unique(U[i])
            y = x.copy()
            ok = [j for j in range(1, len(x) - 1) if U[i][degs[i]] < x[j] < U[i][-degs[i] - 1]]
            if k == 'knot' and ok:
                j = choice(rng, ok)
                y[j] += choice(rng, [-.4, .3, 1e-7]) * min(x[j + 1] - x[j], x[j] - x[j - 1])
            else:
                y[-1] += .5 * (x[-1] - x[-2])
            d.U = list(U)
            d.U[i] = y[np.searchsorted(x, U[i])]
        elif k == 'flip' and len(U) > 1:
            d = Data(U[::-1], np.swapaxes(P, 0, len(U) - 1), None if w is None else w.T,
                     None if F is None else np.swapaxes(F, 0, len(U) - 1))
        elif k == 'domain':
            d.U = [V * 1.5 for V in U]
        elif k == 'spline':
            d.w = None
        out.append(d)
    return out, degs


def requests(c, datas, degs, n):
    """(name, thunk): the same request on each of the data."""
    rng = c.rng
    base = datas[0]
    dim = len(degs)
    X = [np.array([gen.param(rng, p, V)[0] for _ in range(int(rng.integers(1, 5)))]) for p, V in zip(degs, base.U)]
    ax = int(rng.integers(dim))
    p, V = degs[ax], base.U[ax]
    u = gen.param(rng, p, V, 'inner')[0]
    k = gen.param(rng, p, V, 'knot')[0]
    a, b = V[p], V[-p - 1]
    lo, hi = a + (b - a) * .21, a + (b - a) * .73
    t = int(rng.integers(1, 3))
    s = int(rng.integers(2))
    G = rng.normal(size=base.shape() + (2,))
    files = [os.path.join(c.tmp, 'f%d' % i) for i in range(2)]
    fn = files[int(rng.integers(2))]

    def petiga(o):
        io.PetIGA().write(fn, o)
        with open(fn, 'rb') as f:
            return f.read(), io.PetIGA().read(fn)

    def vtk(o):
        io.VTK().write(fn, o)
        with open(fn, 'rb') as f:
            return f.read()

    def vec(o):
        A = np.array(o.array[..., 0])
        io.PetIGA().write_vec(fn, A, o)
        return io.PetIGA().read_vec(fn), io.PetIGA().read_vec(fn, o)

    def plot(name):
        def f(o):
            pl, r = Plotter(), Rec(7, 5)
            pl._backend = r
            getattr(pl, name)(o)
            return r.drawn()
        return f
    qs = [('call', lambda o: o(*X)), ('call fields', lambda o: o(*X, fields=True)), ('evaluate', lambda o: o.evaluate(None, *X)),
          ('call default', lambda o: o()), ('evaluate given', lambda o: o.evaluate(G, *X)),
          ('gradient', lambda o: o.gradient(None, *X)), ('gradient given', lambda o: o.gradient(G, *X)),
          ('gradient mapped', lambda o: o.gradient(G, *X, mapped=True)),
          ('hessian', lambda o: o.hessian(None, *X)), ('derivative', lambda o: o.derivative(t, None, *X)),
          ('derivative 3', lambda o: o.derivative(3, G, *X)),
          ('accessors', lambda o: [o.points, o.weights, o.fields, o.control, o.shape, o.degree, o.dim, o.array, o.knots]),
          ('breaks', lambda o: [o.breaks(), o.breaks(mults=True), o.spans()]), ('greville', lambda o: o.greville()),
          ('lagrange', lambda o: o.lagrange()), ('lobatto', lambda o: o.lobatto()), ('spans', lambda o: o.spans(ax)),
          ('slice', lambda o: o.slice(ax, lo, hi)), ('extract', lambda o: o.extract(ax, u)), ('boundary', lambda o: o.boundary(ax, s)),
          ('copy', lambda o: o.copy()), ('clone', lambda o: o.clone())]
    ms = [('insert', lambda o: o.insert(ax, u, t)), ('refine', lambda o: o.refine(ax, [u, lo, hi])),
          ('elevate', lambda o: o.elevate(ax, t)), ('remove', lambda o: o.remove(ax, k, 1, 1e9)),
          ('remove none', lambda o: o.remove(ax, k, 1, 0.0)),
          ('clamp', lambda o: o.clamp(ax)), ('unclamp', lambda o: o.unclamp(ax)), ('reverse', lambda o: o.reverse(ax)),
          ('transpose', lambda o: o.transpose()), ('remap', lambda o: o.remap(ax, -1, 2)),
          ('rotate', lambda o: o.rotate(u, (1, 2, 3))), ('translate', lambda o: o.translate([1, 2, 3])),
          ('scale', lambda o: o.scale(2.5)), ('swap', lambda o: o.swap(0, o.dim - 1)),
          ('refuse insert', lambda o: o.insert(ax, b + (b - a) * 9)), ('refuse axis', lambda o: o.elevate(7)),
          ('refuse call', lambda o: o(*(X + X + X + X))), ('refuse refine', lambda o: o.refine(ax, [u, b + 1 + abs(b)])),
          ('refuse field', lambda o: o.evaluate(G[1:], *X)), ('refuse elevate', lambda o: o.elevate(ax, -1)),
          ('refuse remap', lambda o: o.remap(ax, 2, 1))]
    cs = [('extrude', lambda o: cad.extrude(o, 1.5, s)), ('revolve', lambda o: cad.revolve(o, (0, 0, 0), (0, 1, 1), 1.0 + abs(s))),
          ('ruled', lambda o: cad.ruled(o, datas[-1].build())), ('compat', lambda o: cad.compat(o, datas[0].build())),
          ('cad.refine', lambda o: cad.refine(o, t)), ('cad.refine degree', lambda o: cad.refine(o, 0, max(degs) + 1)),
          ('sweep', lambda o: cad.sweep(o, cad.line((0, 0, 0), (1, 2, 3)))),
          ('join', lambda o: cad.join(o, o.copy(), ax)),
          ('petiga', petiga), ('vtk', vtk), ('vec', vec)] + [
          ('plot ' + x, plot(x)) for x in ('cwire', 'kwire', 'kpoint', 'ksurf', 'curve', 'surface')]
    out = []
    for _ in range(n):
        # what is done before and after the request, on the same object
        name, f = choice(rng, choice(rng, [qs, qs, ms, cs]))
        g = choice(rng, qs)[1] if rng.random() < .6 else None
        h = choice(rng, ms) if rng.random() < .4 else None
        which = [int(i) for i in rng.permutation(len(datas))[:int(rng.integers(2, len(datas) + 1))]]
        for i in which:
            def job(d=datas[i], f=f, g=g, h=h):
                o = d.build()
                r = [outcome(lambda: g(o))] if g else []
                if h:
                    r.append(outcome(lambda: h[1](o)))
                r.append(outcome(lambda: f(o)))
                if g:
                    r.append(outcome(lambda: g(o)))
                return r + [o]
            out.append((name + (' after ' + h[0] if h else ''), job))
    return out


def patch(P, off):
    """Between four lines, of which one may end elsewhere."""
    return cad.coons([[cad.line(P[0, 0], P[0, 1]), cad.line(P[1, 0], P[1, 1] + off)],
                      [cad.line(P[0, 0], P[1, 0]), cad.line(P[0, 1], P[1, 1])]])


def shapes(c, n):
    """The constructions without operands, with arguments that agree in part."""
    rng = c.rng
    out = []
    r, a, b = [float(x) for x in rng.uniform(.5, 3, 3)]
    X = rng.normal(size=(2, 2, 2, 3))
    for _ in range(n):
        i, j = int(rng.integers(2)), int(rng.integers(2))
        q = choice(rng, [r, a, int(r) + 1])
        k = choice(rng, ['circle', 'circle', 'arc', 'line', 'bilinear', 'trilinear', 'grid', 'transform', 'linear', 'coons'])
        size, off = choice(rng, [1, 1, 1e4, 1e8, 1e-3]), choice(rng, [0, 0, 1e-12, 1e-10, 1e-8, 1e-6])
        m, p = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        f = {'circle': lambda q=q, i=i: cad.circle(q, (i, b, 0)), 'arc': lambda q=q, i=i: cad.circle(q, None, (i * a, a + b)),
             'line': lambda i=i, j=j: cad.line(X[0, i, j], X[1, j, i]), 'bilinear': lambda i=i: cad.bilinear(X[i]),
             'trilinear': lambda i=i: cad.trilinear(X[::-1] if i else X), 'linear': lambda i=i, j=j: cad.linear(X[i, j]),
             'grid': lambda m=m, p=p, q=q, i=i: cad.grid((m, m + 1), p, i - 1 if p > 1 else 0, ((0, q), (0, a))),
             'coons': lambda i=i, size=size, off=off: patch(X[i] * size, off),
             'transform': lambda q=q, i=i: [transform().rotate(q, i).translate([a, b]), transform().scale(q).inverse()]}[k]
        out.append((k, f))
    return out


SHARED = {}


def shared(key, make):
    """A writer, reader or plotter that the jobs of this process share."""
    if key not in SHARED:
        SHARED[key] = make()
    return SHARED[key]


def writers(c, datas, n):
    """Jobs that use the same writers, readers and plotters with other settings."""
    rng = c.rng
    out = []
    fn = os.path.join(c.tmp, 'w')
    kinds = ['vtk', 'vtk', 'petiga', 'petiga', 'vec', 'plot', 'plot']
    drawings = ['cpoint', 'cwire', 'kpoint', 'kwire', 'ksurf', 'curve', 'surface', 'plot', 'cplot', 'kplot']
    if rng.random() < .6:           # many alike
        kinds = [choice(rng, kinds)]
        drawings = [choice(rng, drawings), choice(rng, drawings + ['plot'])]
    for _ in range(n):
        d = choice(rng, datas)
        k = choice(rng, kinds)
        if k == 'vtk':
            kw = {}
            if rng.random() < .4:
                m = int(rng.integers(1, 4))
                kw['sampler'] = lambda u, m=m: np.linspace(u[0], u[-1], m + 1)
            if rng.random() < .3:
                kw['control'] = False
            if rng.random() < .4:
                kw['fields'] = rng.normal(size=d.shape() + (2,))
                kw[choice(rng, ['scalars', 'vectors'])] = choice(rng, [dict(a=0), [('b', 1), ('c', 0)]])
                if 'vectors' in kw:
                    kw['vectors'] = dict(a=[0, 1])

            def f(d=d, kw=kw):
                shared('vtk', io.VTK).write(fn, d.build(), **kw)
                with open(fn, 'rb') as fh:
                    return fh.read()
        elif k in ('petiga', 'vec'):
            key = (choice(rng, ['double', 'single']), choice(rng, ['real', 'real', 'complex']), choice(rng, ['32bit', '64bit']))
            kw = choice(rng, [{}, {}, dict(control=False), dict(fields=False), dict(nsd=3)])

            def f(d=d, kw=kw, k=k, key=key):
                x, o = shared(key, lambda: io.PetIGA(*key)), d.build()
                if k == 'vec':
                    x.write_vec(fn, o.array[..., 1], o)
                    r = x.read_vec(fn, o)
                else:
                    x.write(fn, o, **kw)
                    r = x.read(fn)
                with open(fn, 'rb') as fh:
                    return fh.read(), r
        else:
            name = choice(rng, drawings)
            size = choice(rng, [(7, 5), (7, 5), (4, 9)])
            kw = {}
            if rng.random() < .4 and name in ('cwire', 'kwire', 'curve', 'cplot', 'kplot', 'plot'):
                kw['mode'] = choice(rng, ['line', 'tube'])
            if rng.random() < .4:
                kw['color'] = choice(rng, [(1, 0, 0), (0, .5, 1), None])
            if rng.random() < .2:
                kw['opacity'] = .5

            def f(d=d, name=name, size=size, kw=kw):
                pl, r = shared('plotter', Plotter), shared(size, lambda: Rec(*size))
                pl._backend = r
                del r.calls[:]
                getattr(pl, name)(d.build(), **kw)
                return r.drawn()
            k += ' ' + name
        out.append(('shared ' + k, f))
    return out


# ------------------------------------------------------------------ processes

def child(f):
    """f() in a forked process; its pickled result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data and st == 0 else ['died', st]


def ambient():
    s = np.random.get_state()
    return [np.geterr(), np.get_printoptions(), (s[0], s[1].tobytes()) + s[2:], random.getstate(), os.getcwd(),
            [str(x[:2]) for x in warnings.filters], sorted(os.environ.items()), sys.getrecursionlimit(),
            sys.getswitchinterval(), os.umask(os.umask(0o22) or 0) and 0, gc.isenabled(), gc.get_threshold()]


NAMES = ['floating point error handling', 'print options', 'numpy random state', 'random state', 'current directory',
         'warning filters', 'environment', 'recursion limit', 'switch interval', 'umask', 'garbage collector', 'gc threshold']


def run(jobs, order, setting=None, rubbish=False):
    def body():
        global RAW
        np.seterr(all='warn')
        if setting:
            setting()
        keep = given(jobs) if rubbish else []
        before = ambient()
        out = []
        for i in order:
            if rubbish and not jobs[i][0].startswith('native'):
                RAW = []
                out.append(outcome(jobs[i][1]))
                r, RAW = RAW, None
                scribble(r, keep)
                del r
            else:
                out.append(outcome(jobs[i][1]))
        after = ambient()
        return out, [n for n, x, y in zip(NAMES, before, after) if repr(x) != repr(y)]
    return child(body)


def elsewhere(c):
    seed, gcoff = int(c.rng.integers(2 ** 31)), bool(c.rng.random() < .5)
    prec = int(c.rng.integers(1, 5))

    def f():
        np.random.seed(seed)
        random.seed(seed)
        np.set_printoptions(precision=prec, threshold=3, suppress=True)
        os.chdir(c.tmp)
        os.environ['OMP_NUM_THREADS'] = '3'
        sys.setrecursionlimit(5000)
        warnings.simplefilter('always')
        warnings.showwarning = lambda *a, **k: None
        if gcoff:
            gc.disable()
        else:
            gc.set_threshold(1)
    return f


def isolated(c):
    rng = c.rng
    jobs = []
    datas, degs = twins(rng, int(rng.integers(3, 6)))
    if rng.random() < .25:
        jobs = writers(c, datas, int(rng.integers(8, 20)))
    else:
        jobs = requests(c, datas, degs, int(rng.integers(2, 5)))
    if rng.random() < .4:
        jobs += shapes(c, int(rng.integers(2, 6)))
    if rng.random() < .3:
        # the arguments are fixed when the job is made, and belong to it
        jobs += [('native ' + x, f) for x, f in [native.one(c) for _ in range(int(rng.integers(2, 5)))]]
    if rng.random() < .4:
        jobs = jobs[:14] + writers(c, datas, int(rng.integers(3, 8)))
    jobs = jobs[:24]
    n = len(jobs)
    c.note(jobs=[x for x, _ in jobs])
    alone = []
    for i in range(n):
        x = run(jobs, [i])
        c.check(x[0] != 'died', 'a call ends the process', job=jobs[i][0])
        alone.append(x[0][0])
        c.check(not x[1], 'a call changes the state of the interpreter', job=jobs[i][0], what_changed=x[1])
    c.ev('jobs-alone', n)
    ident = list(range(n))
    orders = [ident + ident[::-1], [int(i) for i in rng.permutation(n)] * 2,
              [int(i) for i in rng.integers(0, n, 2 * n)]]
    settings = [None, None, elsewhere(c)]
    for k, (order, s) in enumerate(zip(orders, settings)):
        x = run(jobs, order, s, rubbish=k == 1)
        c.check(x[0] != 'died', 'a call ends the process', jobs=[jobs[i][0] for i in order])
        for pos, (i, got) in enumerate(zip(order, x[0])):
            c.check(alike(alone[i], got), 'a call returns something else after the results of others were overwritten' if k == 1 else
                    'a call returns something else after other calls' if not s else
                    'a call returns something else in another environment', job=jobs[i][0],
                    before=[jobs[k][0] for k in order[max(0, pos - 6):pos]], got=brief(got), want=brief(alone[i]))
            c.ev('compared')
        c.check(not x[1], 'a call changes the state of the interpreter', what_changed=x[1])
    c.nontrivial([x for x, _ in jobs], datas[0].P)


# ------------------------------------------------------------------ one object

def rebuilt(o):
    """A new object with the same knots and control data."""
    A = np.array(o.array, order='C')
    k = A.shape[-1] - 4
    n = NURBS([np.array(U) for U in o.knots], A[..., :4].copy(), fields=np.zeros(A.shape[:-1] + (k,)) if k else None)
    n.array[...] = A
    return n


def fresh(c):
    """Queries and changes of one object in turns."""
    rng = c.rng
    datas, degs = twins(rng, 3)
    o = datas[0].build()
    log = []
    for step in range(int(rng.integers(4, 10))):
        # the same queries again and again
        if step == 0 or rng.random() < .15:
            seed = int(rng.integers(2 ** 31))

        def answers(o):
            r = np.random.default_rng(seed)
            X = [np.concatenate([[U[p], U[-p - 1]], U[p] + (U[-p - 1] - U[p]) * r.random(2)]) for p, U in zip(o.degree, o.knots)]
            ax = int(r.integers(o.dim))
            U, p = o.knots[ax], o.degree[ax]
            G = r.normal(size=o.shape)
            u = float(U[p] + (U[-p - 1] - U[p]) * .37)
            all_ = [lambda: o(*X), lambda: o(*X, fields=True), lambda: o.evaluate(None, *X), lambda: o.evaluate(G, *X),
                    lambda: o.gradient(None, *X), lambda: o.hessian(None, *X), lambda: o.derivative(1 + seed % 4, None, *X),
                    lambda: o.gradient(G, *X, mapped=True),
                    lambda: [o.points, o.weights, o.control, o.fields, o.shape, o.degree, o.dim], lambda: o.breaks(mults=True),
                    lambda: o.breaks(ax), lambda: o.spans(), lambda: o.greville(), lambda: o.lagrange(), lambda: o.lobatto(),
                    lambda: o.slice(ax, u, None), lambda: o.extract(ax, u), lambda: o.boundary(ax, 1), lambda: o.copy(),
                    lambda: cad.extrude(o, 1.0, 2), lambda: cad.compat(o)]
            pick = [int(i) for i in r.permutation(len(all_))[:9]]
            return [outcome(all_[i]) for i in pick]
        got = answers(o)
        want = answers(rebuilt(o))
        c.note(log=log)
        for i, (x, y) in enumerate(zip(got, want)):
            c.check(alike(y, x), 'an object answers unlike one newly built from its knots and control data',
                    history=log, query=i, got=brief(x), want=brief(y))
            c.ev('answers')
        ax = int(rng.integers(o.dim))
        U, p = o.knots[ax], o.degree[ax]
        u = gen.param(rng, p, U)[0]
        op = choice(rng, ['insert', 'refine', 'elevate', 'remove', 'clamp', 'unclamp', 'reverse', 'transpose', 'remap', 'rotate',
                          'translate', 'scale', 'array', 'control', 'refused', 'refused', 'slice', 'clone', 'boundary', 'transform'])
        c.ev('change:' + op)
        try:
            if op == 'insert':
                if U[p] < u < U[-p - 1]:
                    o.insert(ax, u, 1)
            elif op == 'refine':
                o.refine(ax, [float(U[p] + (U[-p - 1] - U[p]) * x) for x in rng.uniform(.05, .95, 2)])
            elif op == 'elevate':
                if max(o.degree) < 6 and o.array.size < 3000:
                    o.elevate(ax, 1)
            elif op == 'remove':
                o.remove(ax, u, 1, choice(rng, [1e-9, 1e9]))
            elif op in ('clamp', 'unclamp', 'reverse'):
                getattr(o, op)(ax)
            elif op == 'transpose':
                o.transpose()
            elif op == 'remap':
                o.remap(ax, -1.0, 2.0)
            elif op == 'rotate':
                o.rotate(.5, (1, 1, 0))
            elif op == 'translate':
                o.translate([1.0, 2, 3])
            elif op == 'scale':
                o.scale(1.5, 1)
            elif op == 'transform':
                o.transform(rng.normal(size=(3, 3)) + 2 * np.eye(3))
            elif op == 'array':
                o.array[tuple(int(rng.integers(s)) for s in o.shape) + (0,)] += 1.0
            elif op == 'control':
                o.control[tuple(int(rng.integers(s)) for s in o.shape)] = [1, 2, 3, 2]
            elif op == 'refused':
                choice(rng, [lambda: o.insert(ax, U[-p - 1] + 9 * (U[-p - 1] - U[p])), lambda: o.refine(ax, [u, U[p] - 1 - abs(U[p])]),
                             lambda: o.elevate(ax, -1), lambda: o.elevate(9, 1), lambda: o.remap(ax, 1, 0),
                             lambda: o.transpose([0, 0, 0]), lambda: o.transform(np.ones((2, 2))), lambda: o.unclamp(ax, 7),
                             lambda: o.remove(ax, U[-p - 1] + 9 * (U[-p - 1] - U[p])), lambda: o.evaluate(np.ones(3))])()
            elif op == 'slice':
                o = o.slice(ax, float(U[p] + (U[-p - 1] - U[p]) * .11), None)
            elif op == 'boundary':
                if o.dim > 1:
                    o = o.boundary(ax, int(rng.integers(2)))
            elif op == 'clone':
                m = o.clone()
                m.array[..., :3] *= 1.25        # documented to change o as well
        except Exception as e:
            op += ' raised'
        log.append(op)
    c.nontrivial(log, datas[0].P)


def case(c):
    if c.idx % 4 == 3:
        isolated(c)
        c.ev('mode:isolated')
    else:
        fresh(c)
        c.ev('mode:fresh')
