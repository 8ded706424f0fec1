"""Concurrent use.

Every job is run alone first; then again while other threads work, and its
outcome must be bit for bit the same.  Three ways of interleaving:
  preempt  job A is stopped at a line (or bytecode) of igakit, job B runs to
           its end in another thread, A goes on
  mixed    several threads, tiny switch interval, random yields at lines
  native   several threads in the native code at once, without the GIL
On the ThreadSanitizer build any race inside the native code is reported too."""
import itertools, os, sys, threading, time
import numpy as np
import igakit
from igakit import cad, io
from igakit.nurbs import NURBS
from igakit.transform import transform
from vlib import gen, native, work
from vlib.gen import choice

FILES = itertools.count()
PKG = os.path.dirname(igakit.__file__)


def flat(x, out):
    if isinstance(x, NURBS):
        out.append(('object', x.array.shape))
        flat(x.array, out)
        for u in x.knots:
            flat(u, out)
    elif isinstance(x, (tuple, list)):
        out.append(len(x))
        for y in x:
            flat(y, out)
    elif isinstance(x, np.ndarray):
        out.append((x.shape, x.dtype.str, np.ascontiguousarray(x).tobytes()))
    elif isinstance(x, (float, np.floating)):
        out.append(float(x).hex())
    elif isinstance(x, (bool, int, str, bytes, type(None), np.integer)):
        out.append(repr(x))
    else:
        out.append(type(x).__name__)
    return out


def outcome(f):
    try:
        return flat(f(), [])
    except Exception as e:
        return ['raised', type(e).__name__, str(e)[:200]]


# ---------------------------------------------------------------- jobs

def uvw_of(c, o, n=4):
    return [np.array([gen.param(c.rng, p, U)[0] for _ in range(int(c.rng.integers(1, n + 1)))])
            for p, U in zip(o.degree, o.knots)]


def query(c, shared):
    """Reads a shared object."""
    rng = c.rng
    o = choice(rng, shared)
    X = uvw_of(c, o, 6)
    ax = int(rng.integers(o.dim))
    u = float(X[ax][0])
    side = int(rng.integers(2))
    k = int(rng.integers(1, 5))
    a, b = float(o.knots[ax][o.degree[ax]]), float(o.knots[ax][-o.degree[ax] - 1])
    lo, hi = a + (b - a) * .25, a + (b - a) * .7
    F = rng.normal(size=o.shape + choice(rng, [(), (1,), (3,)]))
    ops = [('evaluate F', lambda: o(*X, fields=F)), ('evaluate F', lambda: o.evaluate(F, *X)),
           ('gradient F', lambda: o.gradient(F, *X)), ('hessian F', lambda: o.hessian(F, *X)),
           ('derivative F', lambda: o.derivative(k, F, *X)), ('evaluate', lambda: o()), ('fields', lambda: (o.fields, o.points)),
           ('evaluate', lambda: o(*X)), ('evaluate', lambda: o.evaluate(None, *X)), ('evaluate', lambda: o(*X, fields=True)),
           ('gradient', lambda: o.gradient(None, *X)), ('hessian', lambda: o.hessian(None, *X)),
           ('derivative', lambda: o.derivative(k, None, *X)),
           ('spans', lambda: o.spans()), ('breaks', lambda: o.breaks(mults=True) if ax else o.breaks(ax, True)),
           ('greville', lambda: o.greville()), ('lagrange', lambda: o.lagrange()),
           ('copy', lambda: o.copy()), ('clone', lambda: o.clone()),
           ('slice', lambda: o.slice(ax, lo, hi)), ('points', lambda: [o.points, o.weights, o.control, o.fields, o.degree, o.shape]),
           ('extrude', lambda: cad.extrude(o, 1.5, (1, 2, 3)) if o.dim < 3 else o.copy()),
           ('revolve', lambda: cad.revolve(o, (0, 0, 0), (0, 0, 1), 1.0) if o.dim < 3 else o.copy()),
           ('ruled', lambda: cad.ruled(o, o) if o.dim < 3 else o.copy()),
           ('compat', lambda: cad.compat(*[s for s in shared if s.dim == o.dim])),
           ('new', lambda: NURBS(o.knots, o.array))]
    if o.dim > 1:
        ops += [('boundary', lambda: o.boundary(ax, side)), ('extract', lambda: o.extract(ax, u))]
    name, f = choice(rng, ops[:11] if rng.random() < .5 else ops)
    return 'query ' + name, f


def private(c, shared):
    """Builds an object and changes it in place."""
    rng = c.rng
    mk = {}
    for k in ('knots', 'P', 'w', 'F'):
        mk[k] = None
    mk['knots'], mk['P'], mk['w'], mk['F'], tag = gen.nurbs_data(
        rng, maxspan=3, maxdeg=4, dim=choice(rng, [1, 1, 2, 2, 3]), ends=choice(rng, ['clamped', 'clamped', None]))
    steps = []
    if rng.random() < .3:
        o0 = choice(rng, shared)
        build = o0.copy
    else:
        o0 = NURBS(mk['knots'], mk['P'], fields=mk['F'], weights=mk['w'])
        build = lambda: NURBS(mk['knots'], mk['P'], fields=mk['F'], weights=mk['w'])
    for _ in range(int(rng.integers(1, 5))):
        ax = int(rng.integers(o0.dim))
        x = rng.uniform(.05, .95)
        s = choice(rng, ['insert', 'refine', 'elevate', 'remove', 'clamp', 'unclamp', 'transpose', 'reverse', 'remap',
                         'translate', 'scale', 'rotate', 'evaluate'])
        steps.append((s, ax, x))

    def run():
        o = build()
        out = []
        for s, ax, x in steps:
            ax = min(ax, o.dim - 1)
            p, U = o.degree[ax], o.knots[ax]
            v = U[p] + x * (U[-p - 1] - U[p])
            try:
                if s == 'insert':
                    o.insert(ax, v, 1)
                elif s == 'refine':
                    o.refine(ax, [v, (v + U[p]) / 2])
                elif s == 'elevate':
                    o.elevate(ax, 1)
                elif s == 'remove':
                    i = o.breaks(ax)[1:-1]
                    if len(i):
                        o.remove(ax, i[0], 1, 1e9)
                elif s in ('clamp', 'unclamp', 'reverse'):
                    getattr(o, s)(ax)
                elif s == 'transpose':
                    o.transpose()
                elif s == 'remap':
                    o.remap(ax, -1, 2)
                elif s == 'translate':
                    o.translate([x, 1, 2])
                elif s == 'scale':
                    o.scale(1 + x, 0)
                elif s == 'rotate':
                    o.rotate(x, 2)
                else:
                    out.append(o(*[[k[q], k[-q - 1]] for q, k in zip(o.degree, o.knots)]))
            except (AssertionError, ValueError) as e:
                out.append(str(e))
        return out, o
    return 'private ' + '-'.join(s for s, _, _ in steps), run


def service(c, shared, common=None):
    """Readers, writers and transforms, of their own or ones that all threads use."""
    rng = c.rng
    common = c.services if (rng.random() < .6 if common is None else common) else (io.PetIGA, io.VTK, transform)
    new = lambda: os.path.join(c.tmp, 'f%d' % next(FILES))      # a file of its own for every call
    o = choice(rng, shared)
    r, a, b = [float(x) for x in rng.uniform(.5, 3, 3)]
    G = rng.normal(size=(5, 3))
    kw = choice(rng, [{}, dict(scalars=dict(s=0)), dict(fields=rng.normal(size=o.shape + (3,)), vectors=dict(v=[0, 1, 2]))])
    if not kw.get('fields') is not None and o.fields is None:
        kw = {}

    def petiga():
        path = new()
        common[0]().write(path, o)
        with open(path, 'rb') as f:
            return common[0]().read(path), f.read()

    def vec():
        path = new()
        common[0]().write_vec(path, o.array, o)
        with open(path, 'rb') as f:
            return common[0]().read_vec(path, o), common[0]().read_vec(path), f.read()

    def moved():
        t = common[2]()
        return t(G), o.copy().transform(t), t.inverse().matrix, t.copy().rotate(a, (r, a, b)).matrix, np.array(t)

    def vtk():
        path = new()
        common[1]().write(path, o, **kw)
        with open(path, 'rb') as f:
            return f.read()
    return choice(rng, [('petiga', petiga), ('vec', vec), ('moved', moved), ('vtk', vtk)])


def make(c, shared):
    rng = c.rng
    r, a, b = [float(x) for x in rng.uniform(.5, 3, 3)]
    X = rng.normal(size=(2, 2, 2, 3))
    new = lambda: os.path.join(c.tmp, 'f%d' % next(FILES))      # a file of its own for every call
    o = choice(rng, shared)

    q2, q3 = rng.normal(size=(2, 2)), rng.normal(size=2)

    def short():
        # vectors with fewer than three components
        l = cad.line(q2[0], q2[1])
        return [l, cad.circle(r, q3), cad.circle(r, q3[:1], (a, None)), cad.revolve(l, q3, (a, b), 1.0), cad.revolve(l, [0], [1], 2.0),
                cad.extrude(l, q3), cad.extrude(l, [1]), l.copy().translate(q3), l.copy().scale([2]), l.copy().rotate(a, (1, b)),
                NURBS([[0, 0, 1, 1]], q2), NURBS([[0, 0, 1, 1]], q2, q3, [1, r]), NURBS([[0, 0, 1, 1]] * 2), cad.grid(4, 2), cad.grid((3, 4), 1)]
    curves = lambda: (cad.line(X[0, 0, 0], X[0, 0, 1]), cad.line(X[0, 1, 0], X[0, 1, 1]))

    def coons():
        f = cad.bilinear(X[0])
        return cad.coons([[f.boundary(0, 0), f.boundary(0, 1)], [f.boundary(1, 0), f.boundary(1, 1)]])
    n, p = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    return choice(rng, [
        ('circle', lambda: cad.circle(r, (a, b, 0), (a, a + b))), ('line', lambda: cad.line(X[0, 0, 0], X[1, 0, 0])),
        ('bilinear', lambda: cad.bilinear(X[0])), ('trilinear', lambda: cad.trilinear(X)),
        ('grid', lambda: cad.grid((n, n), p, 0, ((0, r), (0, a)))), ('ruled lines', lambda: cad.ruled(*curves())),
        ('join', lambda: cad.join(cad.line(X[0, 0, 0], X[0, 0, 1]), cad.line(X[0, 0, 1], X[0, 1, 1]), 0)), ('coons', coons),
        ('revolve circle', lambda: cad.revolve(cad.circle(r, (5, 0, 0)), (0, 0, 0), (0, 1, 0), a)),
        ('sweep', lambda: cad.sweep(*curves())),
        ('short', short), ('short', short)]) if rng.random() < .8 else service(c, shared)


def low(c, shared):
    name, f = native.one(c)
    return 'native ' + name, f


# ---------------------------------------------------------------- interleaving

class Tracer(object):
    """Calls hook(n) at the n-th line (or bytecode) of igakit in this thread."""

    def __init__(self, hook, opcodes):
        self.hook, self.opcodes, self.n = hook, opcodes, 0

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.n += 1
            self.hook(self.n)
        return self.local

    def run(self, f):
        sys.settrace(self.trace)
        try:
            return outcome(f)
        finally:
            sys.settrace(None)


def other(f, box):
    t = threading.Thread(target=lambda: box.append(outcome(f)), daemon=True)
    t.start()
    return t


def preempt(c, shared):
    rng = c.rng
    few = shared[:1] if rng.random() < .5 else shared     # often both on the same object
    A = choice(rng, [query, query, query, private, make])(c, few)
    B = choice(rng, [query, query, query, private, make, low])(c, few)
    if rng.random() < .2:
        B = A
    elif rng.random() < .12:     # readers, writers and transforms that both use
        A, B = [service(c, few, True) for _ in range(2)]
    ops = bool(rng.random() < .3)
    c.note(mode='preempt', A=A[0], B=B[0])
    wa, wb = outcome(A[1]), outcome(B[1])
    t = Tracer(lambda n: None, ops)
    t.run(A[1])
    total = t.n
    if not total:
        return
    # B runs at every line of A (or at many of them when there are too many),
    # a few times one at a time, so that what B leaves behind is not undone by the next
    k = 400 if c.tier == 'thorough' else 90
    every = np.arange(1, total + 1) if total <= k else np.unique(rng.integers(1, total + 1, k))
    rounds = [every] + [[x] for x in np.unique(rng.integers(1, total + 1, 25 if c.tier == 'thorough' else 3))]
    for ats in rounds:
        stops, boxes, ths = set(int(x) for x in ats), [], []

        def hook(n):
            if n in stops and not (ths and ths[-1].is_alive()):
                boxes.append([])
                th = other(B[1], boxes[-1])
                th.join(2)
                ths.append(th)
                c.ev('preemptions')
                if th.is_alive():
                    c.ev('preemptions:blocked')
        c.note(at=sorted(stops), of=total, opcodes=ops)
        ga = Tracer(hook, ops).run(A[1])
        for th in ths:
            th.join(60)
            c.check(not th.is_alive(), 'deadlock: a call does not return while another thread is inside the library')
        c.check(ga == wa, 'a call gives another result when another thread works in the middle of it', interrupted=A[0], by=B[0])
        for box in boxes:
            c.check(box[0] == wb, 'a call gives another result in the middle of a call of another thread', inside=A[0], call=B[0])
        c.ev('compared', 1 + len(boxes))
    c.check(outcome(A[1]) == wa and outcome(B[1]) == wb, 'results changed for good after concurrent use')
    c.nontrivial(A[0], B[0], str(wa)[:400])


def threads(c, shared, jobs, rounds, yields):
    """All threads run all jobs, each in its own order."""
    T = int(c.rng.integers(2, 6))
    want = [outcome(f) for _, f in jobs]
    orders = [[int(i) for _ in range(rounds) for i in c.rng.permutation(len(jobs))] for _ in range(T)]
    seeds = [int(x) for x in c.rng.integers(2 ** 31, size=T)]
    gate = threading.Barrier(T)
    bad, count = [], [0] * T
    switches = [0]

    def body(k):
        rnd = np.random.default_rng(seeds[k])
        marks = iter(())

        def hook(n):
            nonlocal marks
            m = next(marks, None)
            if m is None:
                marks = iter(rnd.random(64))
                m = 1
            if m < .1:
                switches[0] += 1
                time.sleep(0)
        gate.wait()
        for i in orders[k]:
            got = Tracer(hook, False).run(jobs[i][1]) if yields else outcome(jobs[i][1])
            count[k] += 1
            if got != want[i]:
                bad.append((jobs[i][0], 'raised' if got[:1] == ['raised'] else 'differs', got[:3]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(choice(c.rng, [1e-6, 1e-5, 1e-4])))
    try:
        ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(T)]
        for t in ths:
            t.start()
        end = time.time() + 100
        for t in ths:
            t.join(max(.1, end - time.time()))
            c.check(not t.is_alive(), 'deadlock: threads do not come back')
    finally:
        sys.setswitchinterval(old)
    c.ev('compared', sum(count))
    c.ev('yields', switches[0])
    c.check(not bad, 'a call gives another result while other threads work', jobs=bad[:3])
    c.check([outcome(f) for _, f in jobs] == want, 'results changed for good after concurrent use')
    c.ev('threads', T)


def mixed(c, shared):
    jobs = [choice(c.rng, [query, query, private, make, low])(c, shared) for _ in range(int(c.rng.integers(3, 8)))]
    c.note(mode='mixed', jobs=[n for n, _ in jobs])
    threads(c, shared, jobs, 2, True)
    c.nontrivial([n for n, _ in jobs], shared[0].array)


def big(c):
    """A native call that stays in the native code for a while."""
    rng = c.rng
    dim = int(rng.integers(1, 4))
    args, shape, X = [], [], []
    for _ in range(dim):
        p = int(rng.integers(1, {1: 7, 2: 4, 3: 3}[dim] + 1))
        U, _ = gen.knots(rng, p, maxspan={1: 6, 2: 4, 3: 3}[dim])
        args += [p, U]
        shape.append(len(U) - p - 1)
        X.append(native.at(c, p, U, {1: 400, 2: 25, 3: 8}[dim]))
    F = rng.normal(size=shape + [3])
    P = rng.normal(size=shape + [4])
    P[..., 3] = rng.uniform(.5, 2, shape)
    k = choice(rng, ['Evaluate', 'Gradient', 'Hessian', 'ThirdDer', 'FourthDer', 'curve'])
    if k == 'Evaluate':
        f = getattr(native.bsp, 'Evaluate%d' % dim)
        return k, lambda: f(*args, P, *X)
    if k != 'curve':
        f = getattr(native.bsp, '%s%d' % (k, dim))
        return k, lambda: f(0, *args, P, F, *X)
    p = int(rng.integers(2, 6))
    U, _ = gen.knots(rng, p, 60, ends='clamped', mult='simple', dom='unit', spacing='uniform')
    Q = rng.normal(size=(len(U) - p - 1, 40))
    Y = np.sort(rng.uniform(U[p], U[-p - 1], 80))
    x = float(choice(rng, U[p + 1:-p - 1]))
    B = native.bsp
    return choice(rng, [
        ('DegreeElevate', lambda: B.DegreeElevate(p, U, Q, 3)), ('RefineKnotVector', lambda: B.RefineKnotVector(p, U, Q, Y)),
        ('InsertKnot', lambda: B.InsertKnot(p, U, Q, float(Y[3]), p - 1)), ('RemoveKnot', lambda: B.RemoveKnot(p, U, Q, x, 1e9, 1)),
        ('Unclamp', lambda: B.Unclamp(p, U, Q)), ('Clamp', lambda: B.Clamp(p, U, Q)), ('Extract', lambda: B.Extract(p, U, Q, x)),
        ('BasisData', lambda: native.iga.BasisData(p, U)), ('BasisDataCol', lambda: native.iga.BasisDataCol(p, U, Y))])


def stress(c, shared):
    jobs = [big(c) if c.rng.random() < .7 else low(c, shared) for _ in range(int(c.rng.integers(1, 5)))]
    c.note(mode='native', jobs=[n for n, _ in jobs])
    for n, _ in jobs:
        c.ev('native:' + n.replace('native ', ''))
    threads(c, shared, jobs, 12, False)
    c.nontrivial([n for n, _ in jobs], shared[0].array)


def case(c):
    rng = c.rng
    shared = [gen.make(rng, NURBS, maxspan=3, maxdeg=3, ends=choice(rng, ['clamped', 'clamped', None]))[0] for _ in range(3)]
    before = [flat(s, []) for s in shared]
    one = io.PetIGA(), io.VTK(), transform().rotate(1, (1, 2, 3)).translate([1, 2, 3])
    c.services = [lambda x=x: x for x in one]
    # the native code is what ThreadSanitizer sees; lines of Python are preempted on the plain build
    modes = (stress, mixed, stress, preempt) if c.flavour == 'tsan' else (preempt, preempt, mixed, preempt, stress)
    mode = modes[c.idx % len(modes)]
    c.ev('mode:' + mode.__name__)
    mode(c, shared)
    c.check([flat(s, []) for s in shared] == before, 'an object that is only read was changed')
