"""Everything taken is given back.

Requests of all kinds (valid, refused, files, drawings, native calls) are
repeated in a forked process: between rounds of equal work neither the blocks
of the interpreter, the bytes of the C heap, the objects known to the garbage
collector, the open files nor the threads may keep growing; the objects and
arrays that took part must be gone once their last reference is dropped; the
reference counts of operands return to what they were; nothing is printed and
no file appears that was not asked for."""
import ctypes, gc, os, sys, tempfile, weakref
import numpy as np
from igakit import cad, io, igalib
from igakit.nurbs import NURBS
from igakit.transform import transform
from vlib import gen, native
from vlib.gen import choice
from . import c27


class Mallinfo2(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                               'uordblks', 'fordblks', 'keepcost')]


try:
    _mallinfo2 = ctypes.CDLL(None).mallinfo2
    _mallinfo2.restype = Mallinfo2
except AttributeError:
    _mallinfo2 = None


def heap():
    if _mallinfo2 is None:
        return 0
    m = _mallinfo2()
    return m.uordblks + m.hblkhd


NAMES = ['blocks of the interpreter', 'bytes of the heap', 'objects of the garbage collector', 'open files', 'threads']
# what one repetition has to leave behind, at least, to be a leak
UNIT = [.5, 16, .5, .5, .5]


def gauge():
    gc.collect()
    return [sys.getallocatedblocks(), heap(), len(gc.get_objects()), len(os.listdir('/proc/self/fd')), len(os.listdir('/proc/self/task'))]


def settle(work, n, unit, more):
    """What keeps growing when work(n) is repeated.  The interpreter and numpy
    keep some freed memory for later, so growth has to go on to the end."""
    g, rounds = None, [gauge()]
    for k in range(3 + more):
        m = n if k < 3 else 4 * n
        if k == 3:
            rounds = rounds[-1:]
        work(m)
        rounds.append(gauge())
        if k >= 2:
            g = grows(rounds, m, unit)
            if not g:
                return []
    return g


def grows(rounds, n, unit):
    """The measures that grew by n*unit or more in every round."""
    out = []
    for i, name in enumerate(NAMES):
        d = [b[i] - a[i] for a, b in zip(rounds, rounds[1:])]
        if min(d) >= n * unit[i]:
            out.append((name, d))
    return out


def held(f, seen=None, depth=0):
    """The ids of all objects and arrays that a request itself holds."""
    seen = {} if seen is None else seen
    if id(f) in seen or depth > 8:
        return seen
    if isinstance(f, (list, tuple, set)):
        more = list(f)
    elif isinstance(f, dict):
        more = list(f.values())
    elif isinstance(f, np.ndarray):
        more = [f.base]
    elif isinstance(f, (NURBS, transform, c27.Data, io.VTK, io.PetIGA)):
        more = list(vars(f).values())
    elif callable(f) and hasattr(f, '__code__'):
        more = [x.cell_contents for x in f.__closure__ or ()] + list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values())
    else:
        return seen
    seen[id(f)] = f
    for x in more:
        held(x, seen, depth + 1)
    return seen


class Watch(object):
    """Weak references to all objects and arrays of a call but its operands."""

    def __init__(self, operands):
        self.refs = []
        self.operands = operands

    def add(self, x, depth=0):
        if id(x) in self.operands:
            return
        if isinstance(x, NURBS):
            self.refs.append(('object', weakref.ref(x)))
            for y in [x.array] + list(x.knots):
                self.add(y)
        elif isinstance(x, np.ndarray):
            b = x
            while isinstance(b, np.ndarray) and id(b) not in self.operands:
                self.refs.append(('array', weakref.ref(b)))
                b = b.base
        elif isinstance(x, transform):
            self.add(x.matrix)
        elif isinstance(x, (list, tuple)) and depth < 4:
            for y in x:
                self.add(y, depth + 1)

    def alive(self):
        return [k for k, r in self.refs if r() is not None]


def extra(c):
    """Requests that fail somewhere, and other readers and writers."""
    rng = c.rng
    fn = os.path.join(c.tmp, 'g')
    cut = os.path.join(c.tmp, 'cut')
    o = cad.circle(float(rng.uniform(1, 2)))
    io.PetIGA().write(fn, o)
    with open(fn, 'rb') as a, open(cut, 'wb') as b:
        data = a.read()
        b.write(data[:int(rng.integers(len(data)))])
    M = np.array([PETMAT, 2, 3, 4, 2, 2, 0, 1, 1, 2], '>i4').tobytes() + np.arange(4.).astype('>f8').tobytes()
    mat = os.path.join(c.tmp, 'mat')
    with open(mat, 'wb') as b:
        b.write(M)
    vec = os.path.join(c.tmp, 'vec')
    io.PetIGA().write_vec(vec, o.array)
    P = rng.normal(size=(5, 4, 3))
    U = [gen.knots(rng, 2, nspan=3, ends='clamped', mult='simple')[0], gen.knots(rng, 3, nspan=1, ends='clamped')[0]]
    no = os.path.join(c.tmp, 'no', 'x')
    v = io.VTK()
    w = io.VTK()
    w.title = 'é'
    p = 3
    return [('read', lambda: io.PetIGA().read(fn)), ('read cut file', lambda: io.PetIGA().read(cut)),
            ] + [('%s of %s' % (m, k), lambda m=m, f=f: getattr(io.PetIGA(), m)(f))
             for k, f in (('geometry', fn), ('cut file', cut), ('matrix', mat), ('vector', vec), ('no file', no), ('empty file', os.devnull))
             for m in [choice(rng, ['read', 'read_vec', 'read_mat'])]] + [
            ('read nothing', lambda: io.PetIGA().read(no)), ('read_vec other', lambda: io.PetIGA().read_vec(fn)),
            ('read_mat', lambda: io.PetIGA().read_mat(mat)), ('read_mat other', lambda: io.PetIGA().read_mat(fn)),
            ('write nowhere', lambda: io.PetIGA().write(no, o)), ('vtk nowhere', lambda: v.write(no, o)),
            ('write full', lambda: io.PetIGA().write('/dev/full', o)), ('vtk full', lambda: v.write('/dev/full', o)),
            ('vtk title', lambda: w.write(fn + 'v', o)), ('vtk index', lambda: v.write(fn + 'v', o, fields=P, scalars=[('a', 9)])),
            ('build', lambda: NURBS(U, P)), ('build bad', lambda: NURBS(U, P[1:])), ('build short', lambda: NURBS(U[:1], P)),
            ('native bad', lambda: igalib.bsp.Evaluate1(p, U[1], P[0][1:], [0.5])),
            ('native bad shape', lambda: igalib.bsp.Evaluate2(2, U[0], 3, U[1], P[:, :, 0], [.5], [.5])),
            ('native missing', lambda: igalib.bsp.FindSpan(p)), ('native more', lambda: igalib.bsp.FindSpan(p, U[1], .5, 1, 2, 3, 4)),
            ('coons bad', lambda: cad.coons((cad.line(), cad.circle()), (cad.line(), cad.line()))),
            ('coons', lambda: cad.coons([[cad.line((0, 0), (0, 1)), cad.line((1, 0), (1, 1))],
                                         [cad.line((0, 0), (1, 0)), cad.line((0, 1), (1, 1))]])),
            ('ruled bad', lambda: cad.ruled(NURBS(U, P), NURBS([U[0], U[0], U[0]], np.zeros((5, 5, 5, 3))))),
            ('transform', lambda: transform().rotate(.5, 1).translate([1, 2]).invert()),
            ('transform bad', lambda: transform(np.zeros((3, 2)))), ('pickle', lambda: __import__('pickle').loads(
                __import__('pickle').dumps(NURBS(U, P)))), ('deepcopy', lambda: __import__('copy').deepcopy(NURBS(U, P))),
            ('repr', lambda: [repr(o), str(o)])]


def served(c, n):
    """What a reader, a writer, a plotter or a transform is given goes away
    while the service stays."""
    rng = c.rng
    P = rng.normal(size=(5, 4, 3))
    U = [gen.knots(rng, 2, nspan=3, ends='clamped', mult='simple')[0], gen.knots(rng, 3, nspan=1, ends='clamped')[0]]
    pl, r = c27.Plotter(), c27.Rec(5, 4)
    pl._backend = r
    v, x, t = io.VTK(), io.PetIGA(), transform().rotate(1, 2)
    fn = os.path.join(c.tmp, 'gv')
    G = rng.normal(size=(4, 3))

    def job(name, g):
        def f():
            o = NURBS(U, P + 0)
            try:
                return [o, g(o)]
            except Exception:
                return [o]
            finally:
                del r.calls[:]
        return 'service ' + name, f
    def give(o):
        q = np.array(G)
        return [q, t(q)]
    js = [job('plot ' + k, lambda o, k=k: getattr(pl, k)(o)) for k in ('curve', 'surface', 'plot', 'cplot', 'kplot', 'cpoint', 'cwire', 'kpoint', 'kwire')]
    js += [job('plot surfaces', lambda o: pl.surface(o, o)), job('vtk', lambda o: v.write(fn, o)),
           job('vtk fields', lambda o: v.write(fn, o, fields=np.array(P), vectors=dict(a=[0, 1, 2]))),
           job('petiga', lambda o: x.write(fn, o)), job('vec', lambda o: [x.write_vec(fn, o.array, o), x.read_vec(fn, o)]),
           job('read', lambda o: [x.write(fn, o), x.read(fn)]), job('transform', lambda o: o.transform(t)), job('points', give),
           job('compose', lambda o: t.compose(transform(np.eye(4))))]
    return [js[int(i)] for i in rng.permutation(len(js))[:n]]


def lasting(c, data, n):
    """Requests that are made of one and the same object again and again."""
    rng = c.rng
    try:
        o = data.build()
    except Exception:
        return []
    dim = o.dim
    ax = int(rng.integers(dim))
    X = [np.array([gen.param(rng, p, U)[0] for _ in range(3)]) for p, U in zip(o.degree, o.knots)]
    p, U = o.degree[ax], o.knots[ax]
    a, b = float(U[p]), float(U[-p - 1])
    fn = os.path.join(c.tmp, 'gv')
    w, x = io.VTK(), io.PetIGA()
    G = rng.normal(size=o.shape)
    F = float(rng.uniform(.1, 3))
    changes = [('reverse', lambda: o.reverse(ax)), ('transpose', lambda: o.transpose()), ('transpose none', lambda: o.transpose(list(range(dim)))),
               ('swap', lambda: o.swap(0, dim - 1)), ('remap', lambda: o.remap(ax, a, b)), ('rotate', lambda: o.rotate(F, (1, 2, 3))),
               ('translate', lambda: o.translate([0, F * 1e-3, 0])), ('scale', lambda: o.scale(1.0)), ('move', lambda: o.move(1e-3, 1)),
               ('transform', lambda: o.transform(np.eye(3))), ('clamp', lambda: o.clamp(ax)), ('refine none', lambda: o.refine(ax, [])),
               ('elevate none', lambda: o.elevate(ax, 0)), ('insert none', lambda: o.insert(ax, (a + b) / 2, 0)),
               ('remove none', lambda: o.remove(ax, (a + b) / 2, 1, 0.0)), ('unclamp', lambda: o.unclamp(ax)),
               ('refuse', lambda: o.insert(ax, b + 9 * (b - a))), ('refuse axis', lambda: o.elevate(7)), ('refuse call', lambda: o(*(X * 4))),
               ('refuse remap', lambda: o.remap(ax, 2, 1)), ('refuse refine', lambda: o.refine(ax, [(a + b) / 2, b + 9 * (b - a)]))]
    queries = [('copy', lambda: o.copy()), ('clone', lambda: o.clone()), ('slice', lambda: o.slice(ax, a + (b - a) * .2, a + (b - a) * .7)),
               ('extract', lambda: o.extract(ax, a + (b - a) * .3)), ('boundary', lambda: o.boundary(ax, 1)), ('call', lambda: o(*X)),
               ('evaluate', lambda: o.evaluate(G, *X)), ('gradient', lambda: o.gradient(None, *X)), ('hessian', lambda: o.hessian(G, *X)),
               ('derivative', lambda: o.derivative(3, None, *X)), ('accessors', lambda: [o.points, o.weights, o.fields, o.control, o.shape, o.degree]),
               ('nodes', lambda: [o.breaks(mults=True), o.spans(), o.greville(), o.lagrange(), o.lobatto()]),
               ('extrude', lambda: cad.extrude(o, F, 2)), ('revolve', lambda: cad.revolve(o, (0, 0, 0), 2, F)), ('ruled', lambda: cad.ruled(o, o)),
               ('compat', lambda: cad.compat(o, o)), ('join', lambda: cad.join(o, o.copy(), ax)), ('cad.refine', lambda: cad.refine(o, 1)),
               ('vtk', lambda: w.write(fn, o)), ('petiga', lambda: [x.write(fn, o), x.read(fn)]),
               ('vec', lambda: [x.write_vec(fn, G, o), x.read_vec(fn, o), x.read_vec(fn)]), ('repr', lambda: repr(o)), ('rebuild', lambda: NURBS(o.knots, o.array)),
               ('another view', lambda: o.array[..., 0] + o.knots[0][0])]
    pl, r = c27.Plotter(), c27.Rec(5, 4)
    pl._backend = r

    def plot(name, **kw):
        def f():
            del r.calls[:]
            getattr(pl, name)(o, **kw)
            del r.calls[:]
        return 'plot ' + name, f
    queries += [plot('curve'), plot('plot'), plot('cplot', mode='tube'), plot('kplot'), plot('surface'), plot('kwire', mode='line')]
    link = [o.copy()]

    def chain(name, g):
        # each made of the one before, which nobody else holds
        def f():
            link[0] = g(link[0])
        return 'chain ' + name, f
    queries += [chain('copy', lambda q: q.copy()), chain('clone', lambda q: q.clone()), chain('slice', lambda q: q.slice(ax, None, None)),
                chain('rebuild', lambda q: NURBS(q.knots, q.control, fields=q.fields)), chain('compat', lambda q: cad.compat(q, o)[0]),
                chain('refine', lambda q: cad.refine(q, 0)), chain('reverse', lambda q: q.clone().reverse(ax)),
                chain('transpose', lambda q: q.clone().transpose()), chain('rotate', lambda q: q.copy().rotate(1, 2)),
                chain('petiga', lambda q: [x.write(fn, q), x.read(fn)][1]),
                chain('deepcopy', lambda q: __import__('copy').deepcopy(q)), chain('face', lambda q: cad.extrude(q, F, 2).boundary(q.dim, 0)),
                chain('pickle', lambda q: __import__('pickle').loads(__import__('pickle').dumps(q)))]
    pick = [changes[int(i)] for i in rng.permutation(len(changes))[:n]] + [queries[int(i)] for i in rng.permutation(len(queries))[:n]]
    for name, f in pick:
        f.lasting = o
    return [('lasting ' + name, f) for name, f in pick]


PETMAT = io.PetIGA.MAT_ID


def jobs_of(c, n):
    rng = c.rng
    datas, degs = c27.twins(rng, int(rng.integers(2, 4)))
    jobs = c27.requests(c, datas, degs, int(rng.integers(1, 3)))
    jobs += c27.shapes(c, 2)
    jobs += [('native ' + x, f) for x, f in [native.one(c) for _ in range(2)]]
    e = extra(c)
    jobs += [e[int(i)] for i in rng.permutation(len(e))[:4]]
    jobs = [jobs[int(i)] for i in rng.permutation(len(jobs))[:n]] + lasting(c, datas[0], 3) + served(c, 2)
    return jobs, datas


def base(x):
    while isinstance(x.base, np.ndarray):
        x = x.base
    return x


def quietly(f):
    try:
        return f()
    except Exception:
        return None


def once(f, keep=None):
    """One call; whatever it gave is dropped, after keep has seen it."""
    if keep is None:
        quietly(f)
        return
    old = c27.outcome

    def seen(g):
        try:
            r = g()
            keep.add(r)
            return c27.flat(r)
        except Exception as e:
            return ['raised', type(e).__name__]
    c27.outcome = seen
    try:
        keep.add(quietly(f))
    finally:
        c27.outcome = old


def body(c, jobs, datas, deep):
    """In the forked process: complaints, events."""
    bad, ev = [], {}

    def event(k, n=1):
        ev[k] = ev.get(k, 0) + n
    out = os.path.join(c.tmp, 'printed')
    tempfile.tempdir = os.path.join(c.tmp, 'tmpdir')
    cwd = os.path.join(c.tmp, 'cwd')
    for d in (tempfile.tempdir, cwd):
        os.mkdir(d)
    os.environ['TMPDIR'] = tempfile.tempdir
    os.chdir(cwd)
    # whatever is printed, by Python or below it
    fd = os.open(out, os.O_RDWR | os.O_CREAT | os.O_APPEND)
    keepfd = [os.dup(1), os.dup(2)]
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    files = set(os.listdir(c.tmp))
    gc.collect()
    gc.freeze()
    arrays = [a for d in datas for a in [d.P, d.w, d.F] + list(d.U) if isinstance(a, np.ndarray)]
    K = 12 if not deep else 40
    for name, f in jobs:
        for _ in range(3):
            once(f)
        gc.collect()
        counts = [sys.getrefcount(a) for a in arrays]
        w = Watch(held(f))
        once(f, w)
        left = w.alive()
        if left:
            gc.collect()
            left = w.alive()
        if left:
            bad.append(['objects or arrays of a call stay alive', dict(job=name, alive=left[:5])])
        event('released', len(w.refs))
        del w
        o = getattr(f, 'lasting', None)
        if o is not None:
            # what a change has replaced is gone
            for _ in range(2):
                old = [base(x) for x in [o.array] + list(o.knots)]
                refs = [weakref.ref(x) for x in old]
                del old
                once(f)
                now = {id(base(x)) for x in [o.array] + list(o.knots)}
                left = [r for r in refs if r() is not None and id(r()) not in now]
                if left:
                    gc.collect()
                    left = [r for r in left if r() is not None and not any(r() is a for a in arrays)]
                if left:
                    bad.append(['what a change has replaced stays alive', dict(job=name, how_many=len(left))])
                event('replaced', len(refs))
        now = [sys.getrefcount(a) for a in arrays]
        if now != counts:
            bad.append(['a call changes the number of references to its operands', dict(job=name, before=counts, after=now)])
        event('refcounts', len(arrays))
        def work(n, f=f):
            for _ in range(n):
                once(f)
        n = K
        g = settle(work, n, UNIT, 25)
        for what, d in g:
            bad.append(['repeating a call keeps taking ' + what, dict(job=name, per_round=d)])
        event('repeated', 3 * n + 4)
        if bad:
            break
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(keepfd[0], 1)
    os.dup2(keepfd[1], 2)
    with open(out, 'rb') as fh:
        text = fh.read()
    if text:
        bad.append(['calls print', dict(text=text[:300].decode('utf-8', 'replace'))])
    for d in (tempfile.tempdir, cwd):
        if os.listdir(d):
            bad.append(['files that nobody asked for', dict(files=os.listdir(d)[:10])])
    more = set(os.listdir(c.tmp)) - files - {'f0', 'f1', 'gv'}
    if more:
        bad.append(['files that nobody asked for', dict(files=sorted(more)[:10])])
    return bad, ev


def fresh(c, deep):
    """Other data in each repetition: what is remembered for each of them adds up."""
    bad, ev = [], {}
    seed = int(c.rng.integers(2 ** 31))
    gc.collect()
    gc.freeze()

    class Sub(object):
        def __init__(self, rng):
            self.rng, self.tmp = rng, c.tmp

        def ev(self, *a):
            pass
        note = ev
    n = 25 if not deep else 80
    step = [0]

    def work(n):
        for _ in range(n):
            step[0] += 1
            s = Sub(np.random.default_rng([seed, step[0]]))
            r = s.rng.random()
            if r < .5:
                datas, degs = c27.twins(s.rng, 1)
                d = datas[0]
                for q in (lambda: d.build(), lambda: d.build()(), lambda: d.build().gradient(),
                          lambda: d.build().elevate(0, 1), lambda: d.build().breaks(), lambda: d.build().greville(),
                          lambda: d.build().refine(0, [float(x) for x in np.unique(d.U[0])[:-1] + .5 * np.diff(np.unique(d.U[0]))]),
                          lambda: cad.extrude(d.build(), s.rng.random()), lambda: cad.revolve(d.build(), None, 2, s.rng.random()),
                          lambda: d.build().transpose(), lambda: d.build().slice(0), lambda: d.build().boundary(0, 0),
                          lambda: d.build().clone(), lambda: d.build().unclamp(0), lambda: io.VTK().write(os.path.join(c.tmp, 'v'), d.build())):
                    quietly(q)
            elif r < .75:
                for x, f in [native.one(s) for _ in range(8)]:
                    quietly(f)
            else:
                for x, f in c27.shapes(s, 8):
                    quietly(f)
    work(6)
    g = settle(work, n, [.5, 64, .3, .3, .3], 16)
    for what, d in g:
        bad.append(['calls with other arguments keep taking ' + what, dict(per_round=d, repetitions=n)])
    ev['fresh-calls'] = 10 * step[0]
    return bad, ev


def case(c):
    deep = c.tier == 'thorough'
    if c.idx % 5 == 4:
        r = c27.child(lambda: fresh(c, deep))
        c.ev('mode:fresh')
        c.nontrivial('fresh', c.idx)
        names = []
    else:
        jobs, datas = jobs_of(c, 8)
        names = [x for x, _ in jobs]
        c.note(jobs=names)
        r = c27.child(lambda: body(c, jobs, datas, deep))
        c.ev('mode:same')
        c.nontrivial(names, datas[0].P)
    if r[0] == 'died':
        c.fail('repeating a call ends the process', status=r[1], jobs=names)
    bad, ev = r
    for k, v in ev.items():
        c.ev(k, v)
    for what, detail in bad:
        c.fail(what, **detail)
