"""VTK files: a strict independent parser against the reference evaluation of
the object at the sampled parameters."""
import os
import numpy as np
from igakit.io import VTK
from .. import gen, work
from ..fmt import parse_vtk, Bad
from ..gen import choice
from ..ref import Obj, L, EPS

NAMES = ['u', 'pressure', 'my scalar', 'a  b', '', None, 'T_1']


def sampler_of(c):
    k = choice(c.rng, ['none', 'none', 'breaks', 'uniform', 'mid', 'one', 'ends', 'centers', 'down', 'mixed'])
    c.ev('sampler:' + k)
    n = int(c.rng.integers(2, 7))
    t = np.sort(c.rng.random(n))
    seed = int(c.rng.integers(1000))

    def order(m):       # the same for every call
        return np.random.default_rng(seed).integers(0, n + m + 2, n + 2)
    return {'none': None, 'breaks': lambda u: u,
            'uniform': lambda u: np.linspace(u[0], u[-1], n),
            'mid': lambda u: np.sort(np.concatenate([u, (u[1:] + u[:-1]) / 2])),
            'one': lambda u: u[:1] + t[0] * (u[-1] - u[0]),
            'ends': lambda u: u[[0, -1]],
            'down': lambda u: u[::-1],
            'mixed': lambda u: np.concatenate([u[0] + t * (u[-1] - u[0]), u[-1:], u, t[:1] * 0 + u[0]])[order(len(u))],
            'centers': lambda u: u[:-1] + t[0] * np.diff(u)}[k]


def pick(c, nf, wide):
    """attribute lists in every accepted form; expected (name, indices) pairs"""
    m = int(c.rng.integers(0, 4))
    out = []
    for _ in range(m):
        name = choice(c.rng, NAMES)
        if wide:
            idx = [int(i) - (nf if c.rng.random() < .2 else 0) for i in c.rng.integers(0, nf, int(c.rng.integers(1, 4)))]
        else:
            idx = int(c.rng.integers(0, nf)) - (nf if c.rng.random() < .2 else 0)
        out.append((name, idx))
    form = choice(c.rng, ['list', 'tuple', 'dict', 'arrays'])
    if form == 'dict':
        d = {n: i for n, i in out if n is not None}
        return d, [(k, d[k]) for k in sorted(d)]
    if form == 'arrays' and wide:
        return [(n, np.array(i)) for n, i in out], out
    return (tuple(out) if form == 'tuple' else out), out


def case(c):
    rng = c.rng
    nrb = work.obj(c, nfields=int(rng.integers(0, 5)))
    pre = Obj.of(nrb)
    dim = pre.dim
    sampler = sampler_of(c)
    kw = {}
    if sampler is not None or rng.random() < .2:
        kw['sampler'] = sampler
    geo = True
    if rng.random() < .5:
        geo = kw['control'] = bool(rng.random() < .5)
    F = None
    nf = pre.array.shape[-1] - 4
    if rng.random() < .5:
        nf = int(rng.integers(1, 5))
        F = rng.normal(size=pre.shape + (nf,)) * choice(rng, [1, 1e4, 1e-4])
        if nf == 1 and rng.random() < .5:
            F = F[..., 0]
        kw['fields'] = choice(rng, [lambda x: x, np.asfortranarray])(F)
        c.ev('fields:given')
    elif nf and rng.random() < .3:
        kw['fields'] = choice(rng, [None, True])
    sc, ve = [], []
    if nf:
        a, sc = pick(c, nf, False)
        if sc or rng.random() < .3:
            kw['scalars'] = a
        b, ve = pick(c, nf, True)
        if ve or rng.random() < .3:
            kw['vectors'] = b
    if kw.get('fields') is True and not (sc or ve):
        pass
    c.note(control=geo, scalars=sc, vectors=ve, sampler=sampler is not None)
    fn = os.path.join(c.tmp, 'x.vtk')
    if rng.random() < .3:
        open(fn, 'wb').write(b'z' * int(rng.integers(1, 50000)))
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, (list, tuple)) else
                dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
    io = VTK()
    if rng.random() < .2:
        io.title = choice(rng, ['', 'x' * 300, 'two words'])
    ret = io.write(fn, nrb, **kw)
    c.same(nrb.array, pre.array, 'write changed the object')
    for k in ('scalars', 'vectors'):
        if k in kw:
            c.check(len(keep[k]) == len(kw[k]) and repr(dict(kw[k]) if isinstance(kw[k], dict) else list(kw[k])) ==
                    repr(keep[k]), 'write changed its argument ' + k)
    if isinstance(F, np.ndarray):
        c.same(kw['fields'], keep['fields'], 'write changed its argument fields')
    data = open(fn, 'rb').read()
    try:
        f = parse_vtk(data)
    except (Bad, ValueError) as e:
        c.fail('not a conforming file: %s' % e)
    c.check(f['title'] == io.title[:255], 'title', got=f['title'])
    uvw = []
    for i in range(dim):
        p, U = pre.degree[i], pre.knots[i]
        b = np.unique(U[p:len(U) - p])
        uvw.append(np.asarray(sampler(b) if sampler else b, 'd'))
    dims = tuple(len(u) for u in uvw) + (1,) * (3 - dim)
    c.check(f['dims'] == dims, 'DIMENSIONS', got=f['dims'], want=dims)
    base = Obj(pre.knots, pre.array[..., :4])
    if F is not None:
        V, E = base.eval(uvw, F=F)
    else:
        V, E = pre.eval(uvw)
    V, E = (x.reshape(dims + x.shape[-1:]) for x in (V, E))
    if geo:
        c.check(f['type'] == 'STRUCTURED_GRID', 'dataset type', got=f['type'])
        c.near(f['points'], V[..., :3], E[..., :3], 'POINTS')
        c.ev('structured')
    else:
        c.check(f['type'] == 'RECTILINEAR_GRID', 'dataset type', got=f['type'])
        for i in range(3):
            c.same(f['coords'][i], uvw[i] if i < dim else np.zeros(1), 'coordinates along axis %d' % i)
        c.ev('rectilinear')
    V, E = V[..., 3:], E[..., 3:]
    want = [('SCALARS', n or 'scalars%d' % i, [k]) for i, (n, k) in enumerate(sc)]
    want += [('VECTORS', n or 'vectors%d' % i, list(k)) for i, (n, k) in enumerate(ve)]
    c.check(len(f['data']) == len(want), 'number of attributes', got=[x[:2] for x in f['data']], want=want)
    for (t, n, A), (t2, n2, idx) in zip(f['data'], want):
        c.check(t == t2 and n == n2.replace(' ', '_'), 'attribute header', got=(t, n), want=(t2, n2))
        B, S = V[..., idx], E[..., idx]
        if t == 'VECTORS':
            c.same(A[..., len(idx):], 0 * A[..., len(idx):], 'missing components of a vector')
            A = A[..., :len(idx)]
        c.near(A, B, S, 'values of %s %s' % (t, n))
        c.ev(t)
    c.ev('files')
    c.nontrivial(data)
