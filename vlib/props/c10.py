"""A population of objects, arrays, lists and transforms that are built from,
cloned from and combined with one another; after every operation everything
but its documented receiver must be byte for byte what it was."""
import os
import numpy as np
from igakit import cad
from igakit.nurbs import NURBS
from igakit.transform import transform
from igakit.io import PetIGA, VTK
from igakit.plot import Plotter
from .. import gen, work
from ..gen import choice
from . import c09, c18, c19

STEPS = {'quick': 14, 'thorough': 22}


def image(x):
    if isinstance(x, NURBS):
        return ('N', x.array.shape, x.array.tobytes(), tuple(k.tobytes() for k in x.knots))
    if isinstance(x, np.ndarray):
        return ('A', x.shape, x.strides, x.tobytes(), x.flags.writeable)
    if isinstance(x, transform):
        return ('T', x.matrix.shape, x.matrix.tobytes())
    if isinstance(x, dict):
        return ('D',) + tuple((k, image(x[k])) for k in sorted(x, key=repr))
    if isinstance(x, (list, tuple)):
        return ('L',) + tuple(id(y) if isinstance(y, (NURBS, transform)) else image(y) for y in x)
    return ('S', type(x).__name__, repr(x))


class World(object):
    def __init__(self, c):
        self.c = c
        self.items, self.images, self.names = [], [], []
        # groups that share their arrays: clones, as documented, and objects
        # with the control array they were given
        self.shared = []

    def add(self, x, name):
        for y in self.items:
            if y is x:
                return x
        self.items.append(x)
        self.images.append(image(x))
        self.names.append(name)
        if len(self.items) > 60:
            del self.items[0], self.images[0], self.names[0]
        return x

    def tie(self, x, y):
        gs = [g for g in self.shared if any(z is x or z is y for z in g)]
        self.shared = [g for g in self.shared if not any(g is h for h in gs)] + [sum(gs, []) + [x, y]]

    def clones(self, x):
        return [z for g in self.shared if any(z is x for z in g) for z in g] or [x]

    def check(self, what, receiver=None):
        c = self.c
        recs = receiver if isinstance(receiver, list) else [receiver]
        for i, x in enumerate(self.items):
            now = image(x)
            if any(x is r for r in recs):
                self.images[i] = now
                continue
            if now != self.images[i]:
                c.fail('%s changed %s' % (what, self.names[i]), item=repr(type(x)))
            c.ev('snapshots-compared')

    def objs(self, dim=None):
        return [x for x in self.items if isinstance(x, NURBS) and (dim is None or x.dim in np.atleast_1d(dim))]


def arrayform(c, a):
    """an array argument: writable, read-only, strided, Fortran order or a list"""
    a = np.array(a, 'd')
    k = choice(c.rng, ['writable', 'writable', 'readonly', 'view', 'strided', 'fortran', 'list'])
    c.ev('argument:' + k)
    if k == 'readonly':
        a.flags.writeable = False
    elif k == 'view':               # read-only, of an array that is not
        a = a.view()
        a.flags.writeable = False
    elif k == 'strided':
        a = np.repeat(a, 2, axis=0)[::2]
    elif k == 'fortran':
        a = np.asfortranarray(a)
    elif k == 'list':
        a = a.tolist()
    return a


def built(c, w, **kw):
    """A new object from arrays that stay in the population."""
    rng = c.rng
    kw.setdefault('maxspan', 3)
    kw.setdefault('maxdeg', 3)
    Us, P, W, F, tag = gen.nurbs_data(rng, **kw)
    if rng.random() < .12:      # knots that almost coincide, next to the ends of the domain
        Us = [U.copy() for U in Us]
        i = int(rng.integers(len(Us)))
        U, p = Us[i], tag['degs'][i]
        e = (U[-1] - U[0]) * 10.0 ** rng.uniform(-14, -12)
        if U[0] < U[p]:
            U[p - 1] = max(U[p] - e, U[p - 1])
        if U[-1] > U[-p - 1]:
            U[-p] = min(U[-p - 1] + e, U[-p])
        c.ev('knots-almost-equal')
    form = choice(rng, ['points', 'points', 'homog', 'homog', 'pair'])
    args = [choice(rng, [list, tuple])([w.add(arrayform(c, U), 'a knot argument') for U in Us])]
    k = {}
    if form == 'homog':
        H = np.ones(P.shape[:-1] + (4,))
        ww = 1.0 if W is None else W[..., None]
        H[..., :3] = P * ww
        H[..., 3] = 1.0 if W is None else W
        args.append(w.add(arrayform(c, H), 'a control argument'))
    elif form == 'pair' and W is not None:
        args.append((w.add(arrayform(c, P), 'a control argument'), w.add(arrayform(c, W), 'a weights argument')))
    else:
        args.append(w.add(arrayform(c, P), 'a control argument'))
        if W is not None:
            k['weights'] = w.add(arrayform(c, W), 'a weights argument')
    if F is not None:
        k['fields'] = w.add(arrayform(c, F), 'a fields argument')
    if isinstance(args[0], list):
        w.add(args[0], 'a list of knots')
    n = NURBS(*args, **k)
    w.check('NURBS()')
    for a in (args[1] if isinstance(args[1], tuple) else args[1:]):
        w.tie(n, a)
    c.ev('constructed')
    return w.add(n, 'an object')


def values(c, w, n, ax):
    v = work.values_arg(c, work.knot_list(c, n, ax, ['inner', 'inner', 'knot'], 3, near=False))
    return w.add(v, 'a list of knots to insert') if isinstance(v, (list, np.ndarray)) else v


def inplace(c, w, n):
    """a random in-place operation on n"""
    rng = c.rng
    ax = work.axis(c, n)
    p, U = n.degree[ax], n.knots[ax]
    names = ['insert', 'refine', 'remove', 'clamp', 'unclamp', 'transpose', 'swap', 'reverse', 'remap', 'transform',
             'transform', 'step', 'step']
    if n.array.size < 3000 and p < 6:
        names += ['elevate', 'elevate']
    op = choice(rng, names)
    if op == 'insert':
        v, kind, m = work.room(c, n, ax)
        n.insert(ax, v, int(rng.integers(0, m + 1)))
    elif op == 'refine':
        n.refine(ax, values(c, w, n, ax))
    elif op == 'elevate':
        n.elevate(ax, int(rng.integers(0, 3)))
    elif op == 'remove':
        v = gen.param(rng, p, U, choice(rng, ['knot', 'knot', 'inner']))[0]
        n.remove(ax, v, int(rng.integers(0, 3)), choice(rng, [1e-9, 1.0, 1e9]))
    elif op == 'clamp':
        n.clamp(ax, choice(rng, [None, 0, 1]))
    elif op == 'unclamp':
        n.unclamp(ax, choice(rng, [None, 0, 1]), choice(rng, [None, 0, p - 1]))
    elif op == 'transpose':
        n.transpose(choice(rng, [None, w.add(rng.permutation(n.dim).tolist(), 'a list of axes')]))
    elif op == 'swap':
        n.swap(ax, work.axis(c, n))
    elif op == 'reverse':
        n.reverse(*choice(rng, [(), (ax,)]))
    elif op == 'remap':
        a = float(rng.uniform(-3, 3))
        n.remap(ax, choice(rng, [None, a]), None) if rng.random() < .2 and a < U[-p - 1] else n.remap(ax, a, a + 1.5)
    elif op == 'transform':
        ts = [x for x in w.items if isinstance(x, transform)]
        t = choice(rng, ts) if ts and rng.random() < .7 else w.add(affine(c), 'a matrix')
        n.transform(t)
    else:
        op, a, k, _ = c09.step(rng)
        for x in list(a) + list(k.values()):
            if isinstance(x, (list, np.ndarray)):
                w.add(x, 'an argument of ' + op)
        getattr(n, op)(*a, **k)
    return op


def write(c, w, n):
    """the user edits control points through the documented view; only the
    object itself and its clones may change"""
    rng = c.rng
    if not n.array.flags.writeable:      # made from a read-only array
        return 'read'
    i = tuple(int(rng.integers(m)) for m in n.shape)
    k = int(rng.integers(3))
    if k == 0:
        n.control[i] = np.append(rng.normal(size=3), 1.0)
    elif k == 1:
        n.control[i[:-1] + (slice(None), slice(3))] += .25
    else:
        n.array[...] *= 1.5         # the same map in other homogeneous coordinates
    rec = w.clones(n)
    w.check('writing control points', rec)
    return 'write'


def affine(c):
    M = np.eye(4)
    M[:3] += .2 * c.rng.normal(size=(3, 4))
    k = int(c.rng.integers(3))
    if k == 1:
        M.flags.writeable = False
    return M


def owned(c, w, r):
    """Writing into the arrays of a fresh copy, as its documentation allows, touches nothing else."""
    for a in r.knots + (r.array,):
        f = a.flags.writeable
        try:
            a.flags.writeable = True
        except ValueError:          # nobody can write there
            continue
        v = a.copy()
        a[...] = -7.0
        a.flags.writeable = f
        try:
            w.check('writing into a copy')
        finally:
            a.flags.writeable = True
            a[...] = v
            a.flags.writeable = f
    c.ev('copies-overwritten')


def derive(c, w, n):
    rng = c.rng
    op = choice(rng, ['copy', 'clone', 'clone', 'slice', 'extract', 'boundary', 'rebuild', 'nurbs_array'])
    ax = work.axis(c, n)
    p, U = n.degree[ax], n.knots[ax]
    if op in ('copy', 'clone'):
        r = getattr(n, op)()
        if op == 'clone':
            w.tie(n, r)
        else:
            owned(c, w, r)
    elif op == 'slice':
        r = n.slice(ax, *work.interval(c, p, U))
    elif op in ('extract', 'boundary'):
        if n.dim == 1:
            op, r = 'clone', n.clone()
            w.tie(n, r)
        elif op == 'extract':
            r = n.extract(ax, gen.param(rng, p, U)[0])
        else:
            r = n.boundary(ax, int(rng.integers(2)))
    elif op == 'rebuild':
        # an object built from the arrays of another
        r = NURBS(n.knots, n.control, fields=n.fields)
        w.tie(n, r)
    else:
        r = NURBS(list(n.knots), n.array[..., :4])
        w.tie(n, r)
    w.check(op)
    w.add(r, 'an object from ' + op)
    return op


def query(c, w, n):
    rng = c.rng
    op = choice(rng, ['call', 'evaluate', 'gradient', 'hessian', 'derivative', 'axes', 'petiga', 'vtk', 'vec', 'plot', 'answers', 'answers'])
    a = [w.add(x, 'a parameter argument') if isinstance(x, (list, np.ndarray)) else x for x in work.uvw(c, n)]
    F = None
    if rng.random() < .5:
        F = w.add(arrayform(c, rng.normal(size=n.shape + (int(rng.integers(1, 3)),))), 'a fields argument')
    if op == 'call':
        n(*a, fields=choice(rng, [False, True]) if F is None else F)
    elif op in ('evaluate', 'gradient', 'hessian'):
        getattr(n, op)(F, *a)
    elif op == 'derivative':
        n.derivative(int(rng.integers(1, 5)), F, *a)
    elif op == 'answers':       # what a query returned belongs to the caller
        got = [n.points, n.fields, n(*a), n(*a, fields=True), n.gradient(F, *a), n.evaluate(F, *a)]
        got += [n.spans(), n.breaks(mults=True), n.breaks(), n.greville(), n.lagrange(), n.lobatto()]

        def scribble(x):
            if isinstance(x, np.ndarray):
                x[...] = 77
                c.ev('answers-overwritten')
            elif isinstance(x, (list, tuple)):
                for y in x:
                    scribble(y)
        scribble(got)
    elif op == 'axes':
        for k in ('spans', 'breaks', 'greville', 'lagrange'):
            getattr(n, k)()
    elif op == 'petiga':
        PetIGA().write(os.path.join(c.tmp, 'x'), n, control=bool(rng.random() < .7))
    elif op == 'vtk':
        nf = np.shape(F)[-1] if F is not None else n.array.shape[-1] - 4
        kw = {}
        if nf:
            kw['scalars'] = w.add(choice(rng, [[('a', 0)], {'a': 0}]), 'a list of scalars')
            kw['vectors'] = w.add(choice(rng, [[('v', [0])], {'v': [0]}]), 'a list of vectors')
            if F is not None:
                kw['fields'] = np.asarray(F)
        VTK().write(os.path.join(c.tmp, 'y'), n, **kw)
    elif op == 'vec':
        A = w.add(arrayform(c, rng.normal(size=n.shape + (2,))), 'a vector')
        PetIGA().write_vec(os.path.join(c.tmp, 'z'), A, n)
    else:
        from .c25 import Rec
        pl = Plotter()
        pl._backend = Rec(3, 2)
        for k in ('cplot', 'kplot', 'plot'):
            getattr(pl, k)(n)
    return op


def construct(c, w):
    """a function of igakit.cad over the population"""
    rng = c.rng
    op = choice(rng, ['compat', 'compat', 'ruled', 'extrude', 'revolve', 'sweep', 'refine', 'join', 'join', 'coons', 'coons',
                      'grid', 'primitive'])
    small = [o for o in w.objs() if o.array.size < 600 and max(o.degree) <= 4]

    def one(dim):
        s = [o for o in small if o.dim in dim]
        return choice(rng, s) if s and rng.random() < .8 else built(c, w, dim=choice(rng, list(dim)), maxspan=2, maxdeg=2)
    if op in ('compat', 'ruled'):
        d = choice(rng, [1, 1, 2])
        a, b = one([d]), one([d])
        if rng.random() < .15:
            b = a
        args = (a, b)
        if op == 'compat' and rng.random() < .3:
            args = (w.add([a, b], 'a list of objects'),)
        if op == 'compat' and rng.random() < .3:
            args += (one([d]),) if len(args) == 2 else ()
        r = getattr(cad, op)(*args)
        if op == 'compat':      # the objects returned may share what did not need to change
            for x, y in zip(args if isinstance(args[0], NURBS) else args[0], r):
                w.tie(x, y)
    elif op == 'extrude':
        d = w.add(c09.vec(rng), 'a displacement')
        r = cad.extrude(one([1, 2]), d)
    elif op == 'revolve':
        p = w.add(c09.vec(rng), 'a point')
        k = c09.direction(rng)
        if isinstance(k, (list, np.ndarray)):
            w.add(k, 'a rotation axis')
        ang = choice(rng, [None, 1.0, [0.5, 2.0], (.1, 3)])
        if isinstance(ang, list):
            w.add(ang, 'an angle range')
        r = cad.revolve(one([1, 2]), p, k, ang)
    elif op == 'sweep':
        r = cad.sweep(one([1, 2]), one([1]))
    elif op == 'refine':
        n = one([1, 2, 3])
        args = [w.add([int(x) for x in rng.integers(1, 3, n.dim)], 'a list of factors')]
        if rng.random() < .4:
            args[0] = w.add(np.array(args[0]), 'an array of factors')
        kw = {}
        if rng.random() < .6:
            kw['degree'] = w.add(np.array([p + int(rng.integers(0, 2)) for p in n.degree]), 'an array of degrees')
        if rng.random() < .5:
            kw['continuity'] = w.add(np.zeros(n.dim, int), 'an array of continuities')
        try:
            r = cad.refine(n, *args, **kw)
        except (ValueError, AssertionError):
            c.ev('refused')
            r = None
    elif op == 'join':
        n = one([1, 2, 3])
        ax = work.axis(c, n)
        p, U = n.degree[ax], n.knots[ax]
        br = np.unique(U[p:len(U) - p])
        v = .6 * br[0] + .4 * br[1]
        a, b = n.slice(ax, None, v), n.slice(ax, v, None)
        w.add(a, 'a slice'), w.add(b, 'a slice')
        if rng.random() < .3:
            a.elevate(ax, 1)
            w.check('elevate', a)
        r = cad.join(a, b, ax % n.dim)
    elif op == 'coons':
        cs = four(c, w)
        r = cad.coons(cs)
    elif op == 'grid':
        d = int(rng.integers(1, 4))
        args = [w.add(choice(rng, [np.array, list])(rng.integers(1, 4, d).tolist()), 'a grid shape')]
        kw = {}
        if rng.random() < .6:
            kw['degree'] = w.add(np.array(rng.integers(1, 4, d)), 'grid degrees')
            if rng.random() < .6:
                kw['continuity'] = w.add(choice(rng, [np.full(d, -1), np.zeros(d, int)]), 'grid continuities')
        if rng.random() < .6:
            kw['limits'] = w.add(np.array([[0., 2.]] * d), 'grid limits')
        if rng.random() < .4:
            kw['wrap'] = w.add(np.array([True] + [False] * (d - 1)), 'grid wrap')
        r = cad.grid(*args, **kw)
    else:
        k = int(rng.integers(4))
        if k == 0:
            r = cad.circle(2.0, w.add(c09.vec(rng), 'a center'), w.add([.2, 2.], 'an angle range'))
        elif k == 1:
            r = cad.line(w.add(c09.vec(rng), 'a point'), w.add(c09.vec(rng), 'a point'))
        elif k == 2:
            r = cad.bilinear(w.add(arrayform(c, rng.normal(size=(2, 2, 3))), 'corners'))
        else:
            r = cad.trilinear(w.add(arrayform(c, rng.normal(size=(2, 2, 2, 3))), 'corners'))
    w.check('cad.' + op)
    for x in (r if isinstance(r, (list, tuple)) else [r]):
        if isinstance(x, NURBS):
            w.add(x, 'a result of ' + op)
    return 'cad.' + op


def four(c, w):
    """four curves between four corners, as the nested sequence coons takes"""
    P = c.rng.normal(size=(2, 2, 3))
    out = []
    for ends in (((0, 0), (0, 1)), ((1, 0), (1, 1))), (((0, 0), (1, 0)), ((0, 1), (1, 1))):
        pair = []
        for a, b in ends:
            n = cad.line(P[a], P[b])
            if c.rng.random() < .5:
                n.elevate(0, 1)
            if c.rng.random() < .5:
                n.refine(0, [.25, .5])
            pair.append(w.add(n, 'a boundary curve'))
        out.append(w.add(pair, 'a list of curves'))
    return w.add(out, 'a list of curve pairs')


def transforms(c, w):
    rng = c.rng
    ts = [x for x in w.items if isinstance(x, transform)]
    if not ts or rng.random() < .3:
        M = w.add(affine(c), 'a matrix')
        w.add(transform(choice(rng, [None, M, M])), 'a transform')
        w.check('transform()')
        return 'transform()'
    t = choice(rng, ts)
    op = choice(rng, ['copy', 'clone', 'inverse', 'of', 'apply', 'invert', 'compose', 'step', 'step', 'edit', 'edit', 'array'])
    rec = None
    if op in ('copy', 'clone', 'inverse'):
        r = getattr(t, op)()
        w.check('transform.' + op)
        w.add(r, 'a transform from ' + op)
        if op == 'clone':
            w.tie(t, r)
    elif op == 'edit':          # the user writes into the matrix
        if not t.matrix.flags.writeable:
            return 'read'
        t.matrix[int(rng.integers(3)), int(rng.integers(4))] += .01
        rec = w.clones(t)
    elif op == 'array':
        r = np.array(t)
        w.check('numpy.array(transform)')
        w.add(r, 'the array of a transform')
        r[0, 3] += 1
        rec = r
    elif op == 'of':
        r = transform(t)
        w.check('transform(transform)')
        w.add(r, 'a transform')
    elif op == 'apply':
        t(w.add(arrayform(c, rng.normal(size=(3, 4))), 'points'))
    elif op == 'invert':
        t.invert()
        rec = t
    elif op == 'compose':
        t.compose(choice(rng, ts + [w.add(affine(c), 'a matrix')]))
        rec = t
    else:
        op, a, k, _ = c09.step(rng)
        for x in list(a) + list(k.values()):
            if isinstance(x, (list, np.ndarray)):
                w.add(x, 'an argument of transform.' + op)
        getattr(t, op)(*a, **k)
        rec = t
    w.check('transform.' + op, rec)
    return 'transform.' + op


def case(c):
    rng = c.rng
    w = World(c)
    for _ in range(2):
        built(c, w)
    hist = []
    for _ in range(STEPS[c.tier]):
        small = [o for o in w.objs([1, 2, 3]) if o.array.size < 6000]
        n = choice(rng, small)
        k = choice(rng, ['inplace'] * 5 + ['derive'] * 3 + ['write'] * 2 + ['query'] * 2 + ['construct'] * 3 + ['transforms'] * 3 + ['built'])
        if k == 'inplace':
            op = inplace(c, w, n)
            w.check(op, n)
        elif k == 'derive':
            op = derive(c, w, n)
        elif k == 'write':
            op = write(c, w, n)
        elif k == 'query':
            op = query(c, w, n)
            w.check(op)
        elif k == 'construct':
            op = construct(c, w)
        elif k == 'transforms':
            op = transforms(c, w)
        else:
            built(c, w)
            op = 'NURBS()'
        c.ev('op:' + op)
        hist.append(op)
    c.note(history=' '.join(hist))
    c.nontrivial(tuple(hist), w.images[-1])
