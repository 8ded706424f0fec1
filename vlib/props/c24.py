"""Long histories, and the repository's own programs as histories.

A history applies up to 14 (30) operations to one object.  Each call runs under
its own monitor, and a shadow (the original object in extended precision with
the accumulated reparametrization, axis permutation and affine transform)
predicts what the object has to evaluate to after every step.  The first cases
are the repository's tests, docstring examples and demonstrations, executed
under the same monitors."""
import contextlib, doctest, glob, importlib, io, os, runpy, sys
import numpy as np
from igakit import cad, nurbs as nurbs_module
from igakit.nurbs import NURBS
from vlib import cadjudge, gen, judge, work
from vlib.case import Case, Violation
from vlib.gen import choice
from vlib.judge import call
from vlib.ref import Obj, EPS, L, samples

REPO = os.environ.get('VERIF_REPO', '/repo')
active = [None]


def programs():
    out = [('tests', os.path.basename(f)[:-3]) for f in sorted(glob.glob(REPO + '/test/test_*.py'))
           if 'doctest' not in f]
    out += [('doctest', m) for m in ('igakit.nurbs', 'igakit.cad', 'igakit.transform', 'igakit.io')]
    out += [('demo', os.path.basename(f)) for f in sorted(glob.glob(REPO + '/demo/*.py'))
            if os.path.basename(f) not in ('createc1fromlines.py', 'conformal.py', 'venturi.py', 'volumify.py')]
    return out


DOCS = {}


def start(cfg):
    # the examples have to be collected before the monitors cover them
    for m in ('igakit.nurbs', 'igakit.cad', 'igakit.transform', 'igakit.io'):
        DOCS[m] = doctest.DocTestFinder(exclude_empty=True).find(importlib.import_module(m))
    judge.attach(NURBS, sink)
    cadjudge.attach(sink)


def sink(name):
    c = active[0]
    if c is not None:
        c.ev('observed:' + name)
        c.ev('observed')
    return c


class Quiet(Case):
    """Known findings belong to other properties; here they are only counted."""

    def known(self, key, what):
        self.ev('known:' + key)


# ------------------------------------------------- the repository's programs

def program(c, kind, name):
    q = Quiet('C24', 1, c.idx)
    q.events, q.fails = c.events, c.fails
    c.note(program='%s %s' % (kind, name))
    out = io.StringIO()
    cwd, argv, path = os.getcwd(), sys.argv, list(sys.path)
    err = None
    try:
        os.chdir(c.tmp)
        with contextlib.redirect_stdout(out):
            if kind == 'tests':
                sys.path.insert(0, REPO + '/test')
                mod = importlib.import_module(name)
                active[0] = q
                for n in sorted(vars(mod)):
                    f = getattr(mod, n)
                    if n.startswith('test_') and callable(f):
                        before = len(c.fails)
                        try:
                            f()
                        except Violation:
                            pass
                        except Exception:
                            # whether a test passes is the test suite's business
                            c.ev('programs:raised')
                        c.ev('programs:functions')
            elif kind == 'doctest':
                run = doctest.DocTestRunner(verbose=False)
                active[0] = q
                for t in DOCS[name]:
                    t.globs.update(vars(importlib.import_module(name)))
                    c.ev('programs:examples', run.run(t, out=out.write).attempted)
            else:
                sys.argv = [name, 'none']
                for f in glob.glob(REPO + '/demo/*.dat'):
                    with open(f, 'rb') as a, open(os.path.basename(f), 'wb') as b:
                        b.write(a.read())
                active[0] = q
                try:
                    runpy.run_path(REPO + '/demo/' + name)
                except Violation:
                    pass
                except Exception as e:
                    c.ev('programs:raised')
                c.ev('programs:demos')
    finally:
        active[0] = None
        os.chdir(cwd)
        sys.argv, sys.path[:] = argv, path
    c.nontrivial(kind, name)


# ------------------------------------------------------------------ histories

class Shadow(object):
    """What the object has to be."""

    def __init__(self, nrb):
        self.base = Obj.of(nrb)
        n = self.base.dim
        self.axes = list(range(n))                  # object axis -> base axis
        self.map = [(L(1), L(0)) for _ in range(n)]  # base axis: u -> a*u+b
        self.fixed = {}                             # base axis -> value
        self.M = np.eye(4, dtype=L)
        self.absM = np.eye(4, dtype=L)
        self.K = 1e7

    def affine(self, ax, old, new, flip=False):
        """The object's axis went from domain `old` to `new`."""
        i = self.axes[ax]
        (a, b), (c, d) = [tuple(map(L, x)) for x in (old, new)]
        if flip:
            a, b = b, a
        s = (b - a) / (d - c)           # new u -> old u = a + s*(u-c)
        A, B = self.map[i]
        self.map[i] = (A * s, A * (a - s * c) + B)

    def transform(self, M, absM):
        self.M = M @ self.M
        self.absM = absM @ self.absM

    def compare(self, c, nrb, what):
        post = Obj.of(nrb)
        v = post.valid() if post.dim else None
        if v:
            c.fail('history: %s leaves an invalid object: %s' % (what, v))
        c.check(post.dim == len(self.axes), 'history: %s: dimension' % what, got=post.dim, want=len(self.axes))
        uvw, at = [], [None] * self.base.dim
        err = [0.0] * self.base.dim
        for ax in range(post.dim):
            u = samples(post.degree[ax], post.knots[ax], c.rng, 1)
            if len(u) > 9:
                keep = np.unique(np.concatenate([[0, len(u) - 1], c.rng.integers(0, len(u), 7)]))
                u = u[keep]
            uvw.append(u)
            i = self.axes[ax]
            a, b = self.map[i]
            x = a * L(1) * u.astype(L) + b
            lo, hi = self.base.domain(i)
            slack = 1e4 * EPS * max(abs(lo), abs(hi), hi - lo) + 1e4 * EPS * float(abs(a)) * float(np.max(np.abs(u)))
            c.check(np.all(x >= lo - slack) and np.all(x <= hi + slack),
                    'history: %s: the domain left the original one' % what, axis=ax, x=x.astype('d'), domain=(lo, hi))
            at[i] = np.clip(x, L(lo), L(hi))
            err[i] = slack
        for i, x in self.fixed.items():
            at[i] = np.array([x], L)
        V, E = self.base.eval(at)
        # how much the map moves within the rounding of the parameters
        for i in range(self.base.dim):
            if err[i]:
                lo, hi = self.base.domain(i)
                for s in (-1, 1):
                    x = list(at)
                    x[i] = np.clip(x[i] + s * L(err[i]), L(lo), L(hi))
                    W, _ = self.base.eval(x)
                    E = E + np.abs(W - V) / (EPS * self.K)
        perm = self.axes + sorted(self.fixed)
        V, E = np.transpose(V, perm + [len(perm)]), np.transpose(E, perm + [len(perm)])
        k = len(self.axes)
        V = V.reshape(V.shape[:k] + V.shape[-1:])
        E = E.reshape(E.shape[:k] + E.shape[-1:])
        X = np.concatenate([V[..., :3], np.ones_like(V[..., :1])], -1)
        XE = np.concatenate([E[..., :3], np.ones_like(V[..., :1])], -1)
        V = np.concatenate([(X @ self.M.T)[..., :3], V[..., 3:]], -1)
        E = np.concatenate([(XE @ self.absM.T)[..., :3], E[..., 3:]], -1)
        if post.dim:
            P, PE = post.eval(uvw)
            got = judge.code_points(nrb, uvw)
        else:
            A = post.array
            P = np.concatenate([A[:3] / A[3], A[4:] / A[3]])
            PE = np.abs(P)
            got = P
        c.near(P, V, E + PE, 'history: %s: not the original map any more' % what, K=self.K)
        c.near(got, V, E + PE, 'history: %s: evaluates differently' % what, K=self.K)
        c.ev('shadow-points', V[..., 0].size)


def dom(nrb, ax):
    p, U = nrb.degree[ax], nrb.knots[ax]
    return float(U[p]), float(U[-p - 1])


def step(c, nrb, sh, log):
    """One operation; returns the (possibly new) object."""
    rng = c.rng
    ax = work.axis(c, nrb)
    i = range(nrb.dim)[ax]
    p, U = nrb.degree[i], nrb.knots[i]
    d0 = dom(nrb, i)
    big = nrb.array.size > (4000 if c.tier == 'quick' else 12000)
    op = choice(rng, ['insert', 'refine', 'refine', 'elevate', 'elevate', 'clamp', 'unclamp', 'unclamp', 'remove', 'transpose',
                      'swap', 'reverse', 'reverse', 'remap', 'slice', 'slice', 'join', 'extract', 'copy', 'clone', 'move',
                      'cad.refine', 'compat'])
    if big and op in ('insert', 'refine', 'elevate', 'cad.refine', 'compat'):
        op = 'slice'
    if op in ('extract',) and (nrb.dim == 1 or rng.random() < .7):
        op = 'reverse'
    if op == 'elevate' and (p > 3 or judge.spread(p, U) > 30):
        op = 'unclamp'
    log.append((op, ax))
    c.ev('op:' + op)
    if op in ('insert', 'refine', 'remove'):
        vals = work.knot_list(c, nrb, ax, ['inner', 'inner', 'knot'], 3, near=False)
        h = d0[1] - d0[0]
        vals = [v for v in vals if np.min(np.abs(np.setdiff1d(np.unique(np.concatenate([U, vals])), [v]) - v)) > 0.02 * h]
        if op == 'refine':
            call(c, nrb, 'refine', ax, work.values_arg(c, vals))
        elif vals:
            v = vals[0]
            t = vals.count(v)
            call(c, nrb, 'insert', ax, v, t)
            if op == 'remove':      # and off again: nothing may remain
                call(c, nrb, 'remove', ax, v, int(rng.integers(1, t + 1)))
    elif op == 'elevate':
        call(c, nrb, 'elevate', ax, int(rng.integers(1, 3)))
    elif op == 'clamp':
        call(c, nrb, 'clamp', ax, choice(rng, [None, 0, 1]))
    elif op == 'unclamp':
        call(c, nrb, 'unclamp', ax, choice(rng, [None, 0, 1]), choice(rng, [None, int(rng.integers(0, p))]))
    elif op == 'transpose':
        perm = [int(x) for x in rng.permutation(nrb.dim)]
        if rng.random() < .3:
            call(c, nrb, 'transpose')
            perm = list(range(nrb.dim))[::-1]
        else:
            call(c, nrb, 'transpose', [x - nrb.dim if rng.random() < .3 else x for x in perm])
        sh.axes = [sh.axes[x] for x in perm]
    elif op == 'swap':
        j = int(rng.integers(nrb.dim))
        call(c, nrb, 'swap', ax, j)
        sh.axes[i], sh.axes[j] = sh.axes[j], sh.axes[i]
    elif op == 'reverse':
        which = sorted(set(int(x) for x in rng.integers(0, nrb.dim, int(rng.integers(1, nrb.dim + 1)))))
        if rng.random() < .2:
            which = list(range(nrb.dim))
            call(c, nrb, 'reverse')
        else:
            call(c, nrb, 'reverse', *which)
        for x in which:
            d = dom(nrb, x)
            sh.affine(x, d, d, True)
    elif op == 'remap':
        lo = float(rng.uniform(-3, 3))
        hi = lo + float(choice(rng, [1.0, 1.0, 0.5, 2.0, rng.uniform(.3, 5)]))
        a = choice(rng, [(lo, hi), (0.0, 1.0), (None, d0[0] + (hi - lo)), (d0[1] - (hi - lo), None)])
        call(c, nrb, 'remap', ax, *a)
        sh.affine(i, d0, dom(nrb, i))
    elif op in ('slice', 'join'):
        br = np.unique(U[p:-p])
        cut = [x for x in d0[0] + (d0[1] - d0[0]) * np.array([.25, .5, .8])
               if np.min(np.abs(U - x)) > 0.02 * (d0[1] - d0[0])]
        x, y = sorted(rng.choice(np.concatenate([br, cut]), 2, replace=False))
        if y - x < 0.05 * (d0[1] - d0[0]):
            return nrb
        if op == 'slice':
            return call(c, nrb, 'slice', ax, choice(rng, [float(x), None]), float(y))
        m = float((x + y) / 2)
        if min(np.abs(br - m)) < 0.02 * (d0[1] - d0[0]):
            m = float(br[np.argmin(np.abs(br - m))])
            if m in d0:
                return nrb
        a, b = call(c, nrb, 'slice', ax, None, m), call(c, nrb, 'slice', ax, m, None)
        before = dom(b, i)
        r = cadjudge.call(c, 'join', a, b, i)
        d = dom(r, i)
        c.near(np.array(d), np.array([d0[0], d0[1]], L), np.array([1.0, 1.0]) * max(abs(d0[0]), abs(d0[1])),
               'history: cut and joined again: domain', K=64)
        return r
    elif op == 'extract':
        v = gen.param(rng, p, U, choice(rng, ['inner', 'knot', 'left', 'right']))[0]
        r = call(c, nrb, 'extract', ax, v)
        j = sh.axes[i]
        a, b = sh.map[j]
        lo, hi = sh.base.domain(j)
        sh.fixed[j] = min(max(a * L(v) + b, L(lo)), L(hi))
        del sh.axes[i]
        return r
    elif op in ('copy', 'clone'):
        r = call(c, nrb, op)
        if rng.random() < .5:       # and the original goes its own way
            nrb.reverse(0)
            nrb.translate([1, 2, 3])
        return r
    elif op == 'move':
        k = choice(rng, ['translate', 'rotate', 'scale', 'move'])
        if k == 'rotate':
            a = (float(rng.uniform(-4, 4)), choice(rng, [0, 1, 2, rng.normal(size=3)]))
            M = judge.m_rotate(*a)
        elif k == 'scale':
            a = ([float(x) for x in np.exp(rng.uniform(-.5, .5, 3))],)
            M = judge.m_scale(*a)
        else:
            a = ([float(x) for x in rng.normal(size=3)],)
            M = judge.m_translate(*a)
        call(c, nrb, k, *a)
        M = M[0] if isinstance(M, tuple) else M
        sh.transform(np.asarray(M, L), np.abs(np.asarray(M, L)))
    elif op == 'cad.refine':
        if max(nrb.degree) > 3:
            return nrb
        return cadjudge.call(c, 'refine', nrb, int(rng.integers(1, 3)))
    elif op == 'compat':
        o = cad.grid([1] * nrb.dim, degree=int(rng.integers(1, 3)))
        old = [dom(nrb, x) for x in range(nrb.dim)]
        if max(nrb.degree) > 4:
            return nrb
        for x in range(nrb.dim):
            o.remap(x, *old[x])
            # its own knots, well apart from the object's
            h = old[x][1] - old[x][0]
            for v in old[x][0] + h * rng.uniform(.05, .95, int(rng.integers(0, 3))):
                if min(np.min(np.abs(nrb.knots[x] - v)), np.min(np.abs(o.knots[x] - v))) > 0.02 * h:
                    o.insert(x, float(v))
            if rng.random() < .5:
                o.remap(x, 0.0, float(rng.uniform(.5, 3)))
        r = cadjudge.call(c, 'compat', nrb, o)[0]
        for x in range(nrb.dim):
            sh.affine(x, old[x], dom(r, x))
        return r
    return nrb


def case(c):
    progs = programs()
    if c.idx < len(progs):
        return program(c, *progs[c.idx])
    rng = c.rng
    nrb = work.obj(c, maxdeg={1: 4, 2: 3, 3: 2}[1 + c.idx % 3], dim=1 + c.idx % 3, maxspan={1: 5, 2: 3, 3: 2}[1 + c.idx % 3],
                   spacing=choice(rng, ['uniform', 'random', 'tenths']),
                   dom=choice(rng, ['unit', 'int', 'affine', 'negative']), weights=choice(rng, ['none', 'mild']))
    sh = Shadow(nrb)
    log = []
    c.note(history=log)
    n = int(rng.integers(4, 15 if c.tier == 'quick' else 31))
    for k in range(n):
        c.note(history=log)
        nrb = step(c, nrb, sh, log)
        sh.compare(c, nrb, ' -> '.join('%s(%s)' % x for x in log[-6:]))
        c.ev('steps')
        if nrb.array.size > 30000:
            break
    o = Obj.of(nrb)
    c.nontrivial(str(log), o.array, *o.knots)
