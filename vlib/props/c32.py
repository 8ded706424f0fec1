"""Calls that fail half-way.

Every request is first executed on operands of its own, and the calls that
igakit makes while it runs are counted: of the native code, of numpy, of other
igakit functions, and of what the caller supplied (array-likes, samplers, drawing
backends).  Then, for each of these calls, the operands are made anew and the
request is executed with that call raising an exception.  The exception has to
come out, or the result has to be the right one; every operand and the state of
the interpreter are as before; and the same request, made again without a
failure, gives what it gives on fresh operands.

The last statements of an operation, which only store what has been computed
(np.ascontiguousarray, tuple and their like), are not made to fail."""
import functools, os, sys, types
import numpy as np
from igakit import cad, io
from igakit.nurbs import NURBS
from igakit.plot import Plotter
from igakit.transform import transform
from vlib import gen, work
from vlib.case import Case
from vlib.gen import choice
from vlib.props import c02, c27, c29
from vlib.props.c10 import image
from vlib.props.c25 import Rec

STORES = {'ascontiguousarray', 'asarray', 'array', 'copy', 'require', 'asanyarray', 'asfortranarray', 'ascontiguous'}


class Fault(Exception):
    pass


class Stop(BaseException):
    """Like KeyboardInterrupt: not an Exception."""


class Injector(object):
    """Counts calls, and lets one of them fail."""

    def __init__(self):
        self.n, self.at, self.kind, self.hit, self.kinds = 0, None, None, None, {}
        self.on = False

    def tick(self, name, kind):
        if not self.on:
            return
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.n - 1 == self.at:
            self.hit = (kind, name)
            raise self.kind('injected into ' + name)


INJ = Injector()


class Wrapped(object):
    """A function that may fail instead of being called."""

    def __init__(self, f, name, kind):
        self.__dict__.update(_f=f, _name=name, _kind=kind)

    def __call__(self, *a, **k):
        INJ.tick(self._name, self._kind)
        return self._f(*a, **k)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __reduce__(self):
        return self._name


class Module(object):
    """A module (or the f2py object of a Fortran one) whose functions may fail."""

    def __init__(self, mod, kind):
        self.__dict__.update(_mod=mod, _kind=kind, _known={})

    def __getattr__(self, name):
        if name not in self._known:
            self._known[name] = proxy(getattr(self._mod, name), self._kind, name)
        return self._known[name]


def proxy(x, kind, name):
    if isinstance(x, (Wrapped, Module, type)):
        return x
    if isinstance(x, types.ModuleType):
        return Module(x, kind)
    if type(x).__name__ == 'fortran':
        # a routine, or the container of the routines of a Fortran module
        return Wrapped(x, name, kind) if callable(x) and x.__doc__ and '= ' + name.lower() + '(' in x.__doc__.lower() else Module(x, kind)
    if callable(x) and name not in STORES:
        return Wrapped(x, name, kind)
    return x


def method(f, name):
    def g(*a, **k):
        INJ.tick(name, 'igakit')
        return f(*a, **k)
    return functools.wraps(f)(g)


def start(cfg):
    mods = [m for n, m in sys.modules.items() if n.startswith('igakit.') and hasattr(m, '__file__') and m.__file__.endswith('.py')]
    classes = set()
    for m in mods:
        for name, x in list(vars(m).items()):
            if isinstance(x, types.ModuleType):
                if x.__name__ == 'numpy':
                    setattr(m, name, Module(x, 'numpy'))
                elif x.__name__ == 'igakit.igalib':
                    setattr(m, name, Module(x, 'native'))
            elif type(x).__name__ == 'fortran':
                setattr(m, name, proxy(x, 'native', name))
            elif isinstance(x, type):
                if x.__module__.startswith('igakit'):
                    classes.add(x)
            elif isinstance(x, types.FunctionType) and x.__module__.startswith('igakit'):
                setattr(m, name, method(x, name))
            elif callable(x) and (getattr(x, '__module__', None) or '').startswith('numpy') and name.lstrip('_') not in STORES:
                setattr(m, name, Wrapped(x, name, 'numpy'))
    for k in classes:
        for name, x in list(vars(k).items()):
            if isinstance(x, types.FunctionType) and (not name.startswith('__') or name in ('__init__', '__call__')):
                setattr(k, name, method(x, name))


class Like(object):
    """Something that can be converted to an array, or fails to be."""

    def __init__(self, a):
        self.a = np.asarray(a)

    def __array__(self, dtype=None, copy=None):
        INJ.tick('__array__', 'caller')
        return np.array(self.a, dtype)

    def __len__(self):
        return len(self.a)


class Backend(Rec):

    def __getattr__(self, name):
        f = Rec.__getattr__(self, name)

        def g(*a, **k):
            INJ.tick(name, 'caller')
            return f(*a, **k)
        return g


# ------------------------------------------------------------------- requests
# each returns (name, request); everything the request uses is in its closure

def like(c, a):
    return Like(a) if c.rng.random() < .4 else a


def args(c, o):
    return [like(c, u) if isinstance(u, np.ndarray) and u.ndim else u for u in work.uvw(c, o)]


def ax(c, o):
    return work.axis(c, o)


def r_insert(c, o):
    i = ax(c, o)
    v, _, m = work.room(c, o, i)
    t = choice(c.rng, [1, m, None]) if m else 0
    return lambda: o.insert(i, v, t)


def r_refine(c, o):
    i = ax(c, o)
    v = like(c, work.knot_list(c, o, i))
    return lambda: o.refine(i, v)


def r_elevate(c, o):
    i = ax(c, o)
    t = int(c.rng.integers(1, 3))
    return lambda: o.elevate(i, t)


def r_remove(c, o):
    i = ax(c, o)
    v = gen.param(c.rng, o.degree[i], o.knots[i], 'knot')[0]
    d = choice(c.rng, [1e-9, 1e9, 0.0])
    return lambda: o.remove(i, v, None, d)


def r_clamp(c, o):
    i, s = ax(c, o), choice(c.rng, [None, 0, 1])
    return lambda: o.clamp(i, s)


def r_unclamp(c, o):
    i, s = ax(c, o), choice(c.rng, [None, 0, 1])
    return lambda: o.unclamp(i, s)


def r_order(c, o):
    k = choice(c.rng, ['transpose', 'swap', 'reverse', 'reverse one', 'axes'])
    i, j = ax(c, o), ax(c, o)
    p = [int(x) for x in c.rng.permutation(o.dim)]
    return {'transpose': lambda: o.transpose(), 'swap': lambda: o.swap(i, j), 'reverse': lambda: o.reverse(),
            'reverse one': lambda: o.reverse(i), 'axes': lambda: o.transpose(p)}[k]


def r_remap(c, o):
    i = ax(c, o)
    a = float(c.rng.normal())
    return lambda: o.remap(i, a, a + 2)


def r_move(c, o):
    k = choice(c.rng, ['translate', 'move', 'scale', 'rotate', 'rotate axis', 'transform', 'matrix', 'like'])
    v = c.rng.normal(size=3)
    w = like(c, v)
    i = int(c.rng.integers(3))
    M = np.eye(4) + .2 * np.triu(c.rng.normal(size=(4, 4)), 1)
    M[3] = 0, 0, 0, 1
    T = transform(M).rotate(.3)
    L = Like(M)
    return {'translate': lambda: o.translate(w), 'move': lambda: o.move(v[0], i), 'scale': lambda: o.scale(w),
            'rotate': lambda: o.rotate(v[0], i), 'rotate axis': lambda: o.rotate(v[0], v), 'transform': lambda: o.transform(T),
            'matrix': lambda: o.transform(M), 'like': lambda: o.transform(L)}[k]


def r_data(c, o):
    """Writing through the documented views."""
    k = choice(c.rng, ['copy', 'clone', 'rebuild', 'rebuild all', 'pickle'])
    P, W, F = o.points.copy(), o.weights.copy(), o.fields
    F = None if F is None else F.copy()
    U = [like(c, u.copy()) for u in o.knots]
    P, W = like(c, P), like(c, W)
    import copy
    return {'copy': lambda: o.copy(), 'clone': lambda: o.clone(), 'rebuild': lambda: NURBS(o.knots, o.control, fields=o.fields),
            'rebuild all': lambda: NURBS(U, P, F, W), 'pickle': lambda: copy.deepcopy(o)}[k]


def r_cut(c, o):
    i = ax(c, o)
    a, b = work.interval(c, o.degree[i], o.knots[i])
    v = gen.param(c.rng, o.degree[i], o.knots[i])[0]
    s = int(c.rng.integers(2))
    return choice(c.rng, [lambda: o.slice(i, a, b), lambda: o.extract(i, v), lambda: o.boundary(i, s)])


def r_eval(c, o):
    u = args(c, o)
    F = like(c, work.fields(c, o))
    n = int(c.rng.integers(1, 5))
    return choice(c.rng, [lambda: o(*u), lambda: o(*u, fields=F), lambda: o.evaluate(F, *u), lambda: o.gradient(None, *u),
                          lambda: o.hessian(F, *u), lambda: o.derivative(n, F, *u)])


def r_mapped(c, o):
    m = c02.regular(c)
    u = args(c, m)
    F = like(c, work.fields(c, m))
    return lambda: m.gradient(F, *u, mapped=True)


def r_nodes(c, o):
    i = choice(c.rng, [None, ax(c, o)])
    n = choice(c.rng, ['spans', 'breaks', 'greville', 'lagrange', 'lobatto'])
    return lambda: getattr(o, n)(i)


def second(c, o):
    m = o.copy()
    A = m.array.copy()
    A[..., :3] += c.rng.normal(size=3)
    m = work.make(m.knots, A)
    for i in range(m.dim):
        if c.rng.random() < .5 and m.degree[i] < 5:
            m.elevate(i)
        if c.rng.random() < .5:
            m.refine(i, work.knot_list(c, m, i, ['inner'], 2, near=False))
        if c.rng.random() < .3:
            a = float(c.rng.uniform(-2, 2))
            m.remap(i, a, a + 1.5)
    return m


def r_extrude(c, o):
    v = like(c, c.rng.normal(size=3))
    return lambda: cad.extrude(o, v)


def r_revolve(c, o):
    p = like(c, c.rng.normal(size=3))
    d = choice(c.rng, [2, c.rng.normal(size=3)])
    a = choice(c.rng, [None, 1.3, (.2, 5.0)])
    return lambda: cad.revolve(o, p, d, a)


def r_ruled(c, o):
    m = second(c, o)
    return lambda: cad.ruled(o, m)


def r_compat(c, o):
    m, n = second(c, o), second(c, o)
    L = choice(c.rng, [[o, m, n], [o, m], (o, m, n)])
    return choice(c.rng, [lambda: cad.compat(o, m), lambda: cad.compat(L), lambda: cad.compat(o, m, axes=[0])])


def r_join(c, o):
    i = ax(c, o) % o.dim
    p, U = o.degree[i], o.knots[i]
    v = gen.param(c.rng, p, U, 'inner')[0]
    a, b = o.slice(i, None, v), o.slice(i, v, None)
    if c.rng.random() < .5:
        b.elevate(i)
    return lambda: cad.join(a, b, i)


def r_sweep(c, o):
    t = gen.make(c.rng, NURBS, dim=1, nfields=0)[0]
    return lambda: cad.sweep(o, t)


def r_coons(c, o):
    P = c.rng.normal(size=(2, 2, 3))

    def curve(a, b):
        m = cad.line(a, b)
        if c.rng.random() < .5:
            m.elevate(0, 1)
        if c.rng.random() < .5:
            m.refine(0, [float(c.rng.uniform(.1, .9))])
        return m
    C = [[curve(P[0, 0], P[0, 1]), curve(P[1, 0], P[1, 1])], [curve(P[0, 0], P[1, 0]), curve(P[0, 1], P[1, 1])]]
    return lambda: cad.coons(C)


def r_cadrefine(c, o):
    f = int(c.rng.integers(1, 4))
    d = [p + int(c.rng.integers(0, 2)) for p in o.degree]
    return lambda: cad.refine(o, f, d)


def r_build(c, o):
    P = c.rng.normal(size=(2, 2, 2, 3))
    Q = [like(c, P[0, 0]), like(c, P[0]), like(c, P)]
    return choice(c.rng, [lambda: cad.line(P[0, 0, 0], P[1, 1, 1]), lambda: cad.circle(2, P[0, 0, 0], (.3, 4)), lambda: cad.linear(Q[0]),
                          lambda: cad.bilinear(Q[1]), lambda: cad.trilinear(Q[2]), lambda: cad.grid((3, 4), 2, 0)])


def r_transform(c, o):
    T = transform().rotate(.4, 0).translate([1, 2, 3])
    S = transform().scale(2.)
    v = like(c, c.rng.normal(size=3))
    P = c.rng.normal(size=(5, 4))
    return choice(c.rng, [lambda: T.compose(S), lambda: T.translate(v), lambda: T.scale(v), lambda: T.rotate(.3, v), lambda: T.rotate(.3, 1),
                          lambda: T.inverse(), lambda: T.invert(), lambda: T(P), lambda: T.copy(), lambda: T.compose(Like(np.eye(4)))])


def r_petiga(c, o):
    fn = os.path.join(c.tmp, 'out')
    old = os.path.join(c.tmp, 'old')
    io.PetIGA().write(old, o)
    vec = os.path.join(c.tmp, 'vec')
    w = io.PetIGA(**choice(c.rng, [{}, dict(precision='single'), dict(indices='64bit'), dict(scalar='complex')]))
    w.write_vec(vec, o.array)
    r = io.PetIGA()
    A = like(c, c.rng.normal(size=o.shape))
    B = c.rng.normal(size=o.shape)

    def read(f):
        with open(f, 'rb') as g:
            return g.read()
    return choice(c.rng, [lambda: [w.write(fn, o), read(fn)], lambda: r.read(old), lambda: [w.write_vec(fn, A), read(fn)],
                          lambda: [w.write_vec(fn, B, o), read(fn)], lambda: w.read_vec(vec)])


def r_vtk(c, o):
    fn = os.path.join(c.tmp, 'out.vtk')
    w = io.VTK()
    F = c.rng.normal(size=o.shape + (3,))
    S = choice(c.rng, [{'b': 0, 'a': 2}, [('s', 1)], ()])
    V = choice(c.rng, [{'v': [0, 1]}, [('w', [2, 1, 0])], ()])

    def sampler(u):
        INJ.tick('sampler', 'caller')
        return np.concatenate([u[:-1], (u[1:] + u[:-1]) / 2, u[-1:]])
    ctl = bool(c.rng.random() < .7)

    def f():
        w.write(fn, o, ctl, F, S, V, sampler)
        with open(fn, 'rb') as g:
            return g.read()
    return f


def r_plot(c, o):
    pl = Plotter()
    pl._backend = r = Backend(5, 4)
    names = ['cpoint', 'cwire', 'kpoint', 'kwire', 'curve', 'plot', 'cplot', 'kplot'] + ['surface', 'ksurf'] * (o.dim > 1)
    n = choice(c.rng, names)
    kw = choice(c.rng, [{}, dict(color=(1, 0, 0))])

    def f():
        del r.calls[:]
        try:
            getattr(pl, n)(o, **kw)
            return r.drawn()
        finally:
            del r.calls[:]
    return f


REQUESTS = [r_insert, r_refine, r_elevate, r_remove, r_clamp, r_unclamp, r_order, r_remap, r_move, r_data, r_cut, r_eval, r_mapped,
            r_nodes, r_extrude, r_revolve, r_ruled, r_compat, r_join, r_sweep, r_coons, r_cadrefine, r_build, r_transform,
            r_petiga, r_vtk, r_plot, r_unclamp, r_join, r_compat, r_cadrefine, r_move, r_remove]


# ------------------------------------------------------------------- execution

def state(f):
    """All operands."""
    out = []
    for x in c29.held(f).values():
        if isinstance(x, NURBS):
            out.append(('object', image(x), sorted(vars(x)), [k.flags.writeable for k in x.knots], x.array.flags.writeable,
                        [a.__array_interface__['data'][0] for a in (x.array,) + tuple(x.knots)]))
        elif isinstance(x, (np.ndarray, transform)):
            out.append(('array', image(x)))
        elif isinstance(x, (io.VTK, io.PetIGA)):
            out.append(('writer', repr(sorted(vars(x).items(), key=str))))
        elif isinstance(x, (list, dict, tuple)):
            out.append(('container', len(x), [id(y) for y in x]))
    return out


def content(f):
    """What the operands have become, for comparison of two executions."""
    return [c27.flat(x) for x in c29.held(f).values() if isinstance(x, (NURBS, np.ndarray, transform))]


def descriptors():
    return len(os.listdir('/proc/self/fd'))


def execute(f, at=None, kind=Fault):
    """(result, exception) of one call under the injector."""
    INJ.n, INJ.at, INJ.kind, INJ.hit, INJ.kinds = 0, at, kind, None, {}
    INJ.on = True
    try:
        return f(), None
    except (Exception, Stop) as e:
        return None, e
    finally:
        INJ.on = False


class Sub(Case):
    """Makes the same operands again and again."""


def case(c):
    n = int(c.rng.integers(2 ** 31))
    pick = (c.idx % len(REQUESTS)) if c.rng.random() < .5 else int(c.rng.integers(len(REQUESTS)))
    req = REQUESTS[pick]
    name = req.__name__[2:]

    def make():
        s = Sub('C32', c.seed, c.idx, c.tier, c.tmp)
        s.rng = np.random.default_rng([n, 32])
        small = dict(maxdeg=3, maxspan=3)
        if name in ('extrude', 'revolve', 'ruled', 'sweep'):
            small['dim'] = choice(s.rng, [1, 2])
        if name == 'unclamp':
            small.update(spacing='uniform', mult='simple')
        o, _ = gen.make(s.rng, NURBS, **small)
        s.tag = dict(dim=o.dim)
        s.note(object=_)
        c.desc.update(s.desc)
        return req(s, o)
    f = make()
    one, err = execute(f)
    total = INJ.n
    for k, v in INJ.kinds.items():
        c.ev('calls:' + k, v)
    c.note(request=name, calls=total)
    if err is not None:
        c.ev('refused')
        if not isinstance(err, (AssertionError, ValueError, IndexError, TypeError)):
            raise err
        return
    one, after = c27.flat(one), content(f)
    most = 30 if c.tier == 'quick' else 200
    todo = list(range(total))
    if total > most:
        todo = sorted(set([0, 1, total - 2, total - 1]) | set(int(i) for i in c.rng.permutation(total)[:most]))
    for at in todo:
        kind = choice(c.rng, [Fault, MemoryError, Stop, KeyError, ValueError, OSError, ArithmeticError])
        f = make()
        before, around, fds = state(f), c27.ambient(), descriptors()
        got, err = execute(f, at, kind)
        hit = INJ.hit
        detail = dict(request=name, failing=hit, at=at, of=total, exception=kind.__name__)
        c.check(hit is not None, 'the same request makes other calls the second time', **detail)
        if err is None:
            c.check(c27.alike(one, c27.flat(got)) and c27.alike(after, content(f)),
                    name + ': a call failed inside, and something else is returned', **detail)
            c.ev('tolerated')
            continue
        del got
        now = state(f)
        if now != before:
            which = [b[0] for a, b in zip(before, now) if a != b]
            c.fail(name + ': failed half-way and left its operands changed', changed=which, error=repr(err), **detail)
        here = c27.ambient()
        if repr(here) != repr(around):
            c.fail(name + ': failed half-way and left the interpreter changed',
                   which=[x for x, a, b in zip(c27.NAMES, around, here) if repr(a) != repr(b)], **detail)
        if descriptors() > fds:     # even while the exception is being handled
            c.fail(name + ': failed half-way and left a file open', **detail)
        err = None
        again, err = execute(f)
        if err is not None:
            c.fail(name + ': refused after a failure half-way', error=repr(err), **detail)
        if not c27.alike(one, c27.flat(again)) or not c27.alike(after, content(f)):
            c.fail(name + ': gives something else after a failure half-way', got=c27.brief(c27.flat(again)),
                   want=c27.brief(one), **detail)
        c.ev('failures')
        c.ev('failed:' + hit[0])
        c.ev('request:' + name)
        c.nontrivial(n, at)
