"""Workload pieces shared by the properties: objects and request arguments."""
import numpy as np
from igakit.nurbs import NURBS
from igakit import cad
from . import gen, judge
from .gen import choice
from .ref import Obj, EPS, L


def obj(c, **kw):
    """A random object; its description goes to the case's notes."""
    if 'maxdeg' not in kw and kw.get('degs') is None and c.rng.random() < .06:
        kw['dim'] = kw.get('dim') or 1
        kw['maxdeg'] = {1: 11, 2: 7, 3: 4}[kw['dim']]
    if 'maxspan' not in kw and c.rng.random() < .04:
        d = kw.get('dim') or 1
        kw['dim'] = d
        kw['maxspan'] = {1: 60, 2: 12, 3: 4}[d]
    r = c.rng.random()
    if r < .004 and 'maxspan' not in kw and 'maxdeg' not in kw and kw.get('degs') is None:
        # past the sizes at which counters, buffers and block sizes end
        d = kw.get('dim') or int(c.rng.integers(1, 3))
        kw.update(dim=d, maxspan=choice(c.rng, {1: [400, 3000, 40000], 2: [40, 120], 3: [8, 14]}[d]), maxdeg=3, spacing='random')
        c.ev('objects:large')
    elif r < .02 and 'nfields' not in kw:
        kw['nfields'] = int(c.rng.integers(5, 40))
        c.ev('objects:many-fields')
    nrb, tag = gen.make(c.rng, NURBS, **kw)
    c.note(object=tag)
    c.tag = tag
    c.ev('objects:dim%d' % tag['dim'])
    if any(k[3] != 'clamped' for k in tag['knots']):
        c.ev('objects:unclamped')
    if any(np.any(np.diff(U[p:-p]) == 0) for p, U in zip(nrb.degree, nrb.knots)):
        c.ev('objects:repeated-knots')
    if tag['weights'] != 'none':
        c.ev('objects:rational')
    if tag['nf']:
        c.ev('objects:with-fields')
    return nrb


def axis(c, nrb):
    a = int(c.rng.integers(nrb.dim))
    return a - nrb.dim if c.rng.random() < .25 else a


def points(c, p, U, n=None):
    """A batch of parameters: unsorted, repeated, ends, knots, neighbours."""
    rng = c.rng
    if not n and rng.random() < .02:
        dim = c.tag['dim'] if getattr(c, 'tag', None) else 3
        most = {1: 3000, 2: 150, 3: 60}[dim]
        if most == 3000 and rng.random() < .12:
            n = choice(rng, [4096, 8192, 10000, 16384, 20000, 32768, 65536, 100000]) + choice(rng, [0, 1, -1])
            b = np.unique(U[p:len(U) - p])
            v = rng.uniform(b[0], b[-1], n)
            v[:len(b)] = b[:n]
            return np.clip(v, b[0], b[-1])
        n = int(rng.integers(40, most))
        if rng.random() < .4:       # round numbers, and what lies next to them
            n = choice(rng, [x for x in (50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048) if x < most or x < 300 and dim < 3])
            n += choice(rng, [0, 0, 0, 1, -1])
            return np.array([gen.param(rng, p, U)[0] for _ in range(n)])
        c.ev('arg:many')
    n = n or int(rng.integers(1, 7))
    v = [gen.param(rng, p, U)[0] for _ in range(n)]
    if rng.random() < .3:
        v.append(v[0])
    if rng.random() < .3:
        k = gen.param(rng, p, U, 'knot')[0]
        for s in (-np.inf, np.inf):
            x = np.nextafter(k, s)
            if U[p] <= x <= U[-p - 1]:
                v.append(x)
    v = np.array(v)
    rng.shuffle(v)
    return v


def uvw(c, nrb, none=.2, scalar=.3):
    """Evaluation arguments in every accepted form."""
    out = []
    for p, U in zip(nrb.degree, nrb.knots):
        r = c.rng.random()
        if r < none:
            out.append(None)
            c.ev('arg:default')
        elif r < none + scalar:
            x = gen.param(c.rng, p, U)[0]
            out.append(choice(c.rng, [float, np.float64, np.asarray])(x))
            c.ev('arg:scalar')
        else:
            v = points(c, p, U)
            k = choice(c.rng, ['array', 'array', 'list', 'strided', 'tuple', 'readonly', 'one'])
            if k == 'list':
                v = v.tolist()
            elif k == 'tuple':
                v = tuple(v)
            elif k == 'strided':
                v = np.repeat(v, 3)[::3]
            elif k == 'readonly':
                v.flags.writeable = False
            elif k == 'one':
                v = v[:1]
            out.append(v)
            c.ev('arg:' + k)
    return out


def call_uvw(args):
    """Positional u,v,w (omitted axes become None)."""
    return dict(zip('uvw', args))


def fields(c, nrb):
    """None, or user-given control values with or without a component axis."""
    k = choice(c.rng, ['scalar', 'vector', 'list', 'fortran', 'like', 'many', 'int', 'strided'])
    n = {'like': nrb.array.shape[-1] + int(c.rng.integers(-1, 2)), 'many': int(c.rng.integers(4, 13))}
    if k == 'scalar':
        F = c.rng.normal(size=nrb.shape)
    else:
        F = c.rng.normal(size=nrb.shape + (n.get(k, int(c.rng.integers(1, 4))),))
    if k == 'int':
        F = np.asarray(np.rint(5 * F), int)
    elif k == 'strided':
        G = np.full(tuple(2 * m for m in F.shape), np.nan)
        G[(slice(None, None, 2),) * F.ndim] = F
        F = G[(slice(None, None, 2),) * F.ndim]
    if k == 'list':
        F = F.tolist()
    elif k == 'fortran':
        F = np.asfortranarray(F)
    c.ev('fields:' + k)
    return F


def room(c, nrb, ax):
    """A value of the axis' domain and how many times it can be inserted,
    avoiding the ends of unclamped axes (known finding C03-END)."""
    rng = c.rng
    p, U = nrb.degree[ax], nrb.knots[ax]
    for _ in range(20):
        v, kind = gen.param(rng, p, U)
        m = int(np.sum(U == v))
        if kind in ('left', 'right'):
            if m >= p:
                return v, kind, 0
            continue
        if m < p:
            return v, kind, p - m
    return gen.param(rng, p, U, 'inner') + (p,)


def next_to(v, side, size):
    """The neighbouring float; next to zero, a value that is small compared
    with the domain but far from the subnormal range."""
    x = float(np.nextafter(v, side * np.inf))
    if abs(x) < 1e-200 or abs(v) < 1e-200:
        x = float(v + side * EPS * size)
    return x


def make(knots, array):
    """An object with exactly this control data, fields included."""
    A = np.asarray(array)
    F = A[..., 4:] / A[..., 3:4] if A.shape[-1] > 4 else None
    return NURBS(knots, A[..., :4], fields=F)


def knot_list(c, nrb, ax, kinds=None, most=6, near=True):
    """A list of values that refine() must accept on this axis: new and
    existing knots, near-duplicates, repetitions up to the degree."""
    rng = c.rng
    p, U = nrb.degree[ax], nrb.knots[ax]
    out = []
    if most == 6 and rng.random() < .01:
        most = {1: 300, 2: 60, 3: 12}[nrb.dim]
        c.ev('values:many')
    for _ in range(int(rng.integers(1, most + 1))):
        if kinds:
            v = gen.param(rng, p, U, choice(rng, kinds))[0]
            m = p - int(np.sum(U == v))
            if v in (U[p], U[-p - 1]):
                m = 0
        else:
            v, _, m = room(c, nrb, ax)
        m -= out.count(v)
        if m > 0:
            out += [v] * int(rng.integers(1, m + 1))
        if near and out and rng.random() < .15:
            x = next_to(v, choice(rng, [-1, 1]), U[-p - 1] - U[p])
            if U[p] < x < U[-p - 1] and x not in U and x not in out:
                out.append(x)
    rng.shuffle(out)
    return out


def values_arg(c, vals):
    """The list in one of the accepted forms."""
    rng = c.rng
    k = choice(rng, ['list', 'tuple', 'array', 'readonly', 'strided', 'matrix', 'float'])
    c.ev('values:' + k)
    if k == 'list':
        return list(vals)
    if k == 'tuple':
        return tuple(vals)
    a = np.array(vals, 'd')
    if k == 'readonly':
        a.flags.writeable = False
    elif k == 'strided':
        a = np.repeat(a, 2)[::2]
    elif k == 'matrix':
        a = a.reshape(-1, 1)
    elif k == 'float' and len(vals) == 1:
        return float(vals[0])
    return a


def interval(c, p, U):
    """start < end in the domain, ends as None sometimes."""
    rng = c.rng
    for _ in range(50):
        a = gen.param(rng, p, U)[0]
        b = gen.param(rng, p, U)[0]
        if a != b:
            a, b = min(a, b), max(a, b)
            if rng.random() < .15:
                a = None
            elif rng.random() < .15:
                b = None
            if a != U[-p - 1] and b != U[p]:
                return a, b
    return None, None
