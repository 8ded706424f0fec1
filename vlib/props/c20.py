"""cad.refine."""
import numpy as np
from vlib import gen, work
from vlib.cadjudge import call


def case(c):
    rng = c.rng
    dim = gen.choice(rng, [1, 1, 2, 2, 3])
    nrb = work.obj(c, dim=dim, maxdeg={1: 5, 2: 3, 3: 2}[dim], maxspan={1: 5, 2: 3, 3: 2}[dim])
    kw = {}
    p = np.array(nrb.degree)
    if rng.random() < .5:
        d = p + rng.integers(-1, 3 if dim < 3 else 2, dim)
        d = np.maximum(d, 1)
        kw['degree'] = form(rng, d.tolist())
        if np.ndim(kw['degree']) == 0:
            d[:] = kw['degree']
        else:
            d = np.array([q if x is None else x for x, q in zip(kw['degree'], p)])
        p = np.maximum(p, d)
    if rng.random() < .75:
        per = []
        for ax in range(dim):
            ne = len(nrb.breaks(ax)) - 1
            r = rng.random()
            if r < .3:
                v = rng.integers(1, 4, ne)
                per.append(v if rng.random() < .5 else v.tolist())
            else:
                per.append(int(rng.integers(1, {1: 6, 2: 4, 3: 3}[dim])))
        if all(np.ndim(x) == 0 for x in per):
            kw['factor'] = form(rng, per)
        else:
            kw['factor'] = ragged(per) if rng.random() < .5 else per
    if rng.random() < .6:
        r = rng.random()
        if r < .3:
            k = int(rng.integers(0, p.min()))
            kw['continuity'] = k
        elif r < .5:
            kw['continuity'] = -int(rng.integers(1, p.min() + 1))
        else:
            C = [int(rng.integers(-q, q)) for q in p]
            kw['continuity'] = form(rng, C)
            if np.ndim(kw['continuity']) == 0 and not all(-q <= kw['continuity'] < q for q in p):
                kw['continuity'] = C
    c.note(args=kw)
    if kw and rng.random() < .2 and 'factor' in kw:
        f = kw.pop('factor')
        ret = call(c, 'refine', nrb, f, **kw)
    else:
        ret = call(c, 'refine', nrb, **kw)
    c.nontrivial(ret.array, *ret.knots)
    if rng.random() < .15:
        refused(c, nrb, p)


def refused(c, nrb, p):
    """What the degree cannot have, or does not fit the object, is refused."""
    rng = c.rng
    dim = nrb.dim
    i = int(rng.integers(dim))
    q = [int(x) for x in p]

    def at(default, bad):
        v = list(default)
        v[i] = bad
        return v
    k = gen.choice(rng, ['smooth', 'smooth', 'smooth', 'rough', 'factor', 'long', 'pieces', 'degree'])
    kw = {'degree': q}
    if k == 'smooth':
        kw['continuity'] = at([-1] * dim, q[i] + int(rng.integers(0, 4)))
    elif k == 'rough':
        kw['continuity'] = at([-1] * dim, -q[i] - int(rng.integers(1, 4)))
    elif k == 'factor':
        kw['factor'] = at([1] * dim, int(rng.integers(-2, 1)))
    elif k == 'long':
        kw[gen.choice(rng, ['factor', 'continuity', 'degree'])] = [1] * (dim + 1)
    elif k == 'pieces':
        kw['factor'] = ragged(at([1] * dim, [1] * len(nrb.breaks(i))))
    else:
        kw['degree'] = at(q, int(rng.integers(-2, 1)))
    if k in ('smooth', 'rough') and dim > 1 and rng.random() < .5:
        kw['continuity'] = at([None] * dim, kw['continuity'][i])
    if rng.random() < .5 and 'factor' not in kw:
        kw['factor'] = 2
    from igakit import cad
    c.note(refused=kw)
    try:
        r = cad.refine(nrb, **kw)
    except Exception:
        c.ev('refused')
        c.ev('refused:' + k)
    else:
        c.fail('refine accepts what it cannot deliver', kind=k, args=repr(kw), got=repr([r.degree, r.knots]))


def ragged(per):
    # object arrays survive the conversion that the function makes
    out = np.empty(len(per), dtype=object)
    for i, x in enumerate(per):
        out[i] = x
    return out


def form(rng, v):
    k = gen.choice(rng, ['list', 'tuple', 'array', 'scalar', 'none'])
    if k == 'scalar' and len(set(v)) == 1:
        return v[0]
    if k == 'array':
        return np.array(v)
    if k == 'none' and len(v) > 1:
        w = list(v)
        w[int(rng.integers(len(v)))] = None
        return w
    return tuple(v) if k == 'tuple' else list(v)
