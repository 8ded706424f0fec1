"""Derivatives."""
import numpy as np
from vlib import gen, work
from vlib.judge import call, ref_greville
from vlib.ref import Obj


def case(c):
    rng = c.rng
    nrb = work.obj(c, maxdeg=int({0: 9}.get(c.idx % 10, 5)) if c.idx % 3 else None)
    for _ in range(3):
        order = int(gen.choice(rng, [1, 2, 3, 4]))
        args = work.uvw(c, nrb)
        f = gen.choice(rng, ['default', 'given', 'points', 'components'])
        F = None
        if f == 'given':
            F = work.fields(c, nrb)
        elif f == 'points':
            F = nrb.points
        elif f == 'components':
            F = nrb.points[..., :nrb.dim]
        c.note(order=order, fields=f, args=args)
        how = gen.choice(rng, ['derivative', 'named'])
        kw = work.call_uvw(args)
        if how == 'derivative' or order > 2:
            call(c, nrb, 'derivative', order, fields=F, **kw)
        else:
            call(c, nrb, ['gradient', 'hessian'][order - 1], F, *args)
    # physical gradients of well-conditioned maps
    m = regular(c)
    call(c, m, 'gradient', fields=work.fields(c, m), mapped=True, **work.call_uvw(work.uvw(c, m)))
    if rng.random() < .5:
        call(c, m, 'derivative', 1, fields=m.points[..., :m.dim], mapped=True,
             **work.call_uvw(work.uvw(c, m)))
    c.nontrivial(nrb.array, *nrb.knots)


def regular(c):
    """An object whose map to physical space is a diffeomorphism: a Greville
    grid under a well-conditioned linear map, slightly perturbed."""
    rng = c.rng
    dim = int(rng.integers(1, 4))
    degs = [int(rng.integers(1, {1: 6, 2: 4, 3: 3}[dim] + 1)) for _ in range(dim)]
    Us = [gen.knots(rng, p, maxspan=3, dom=gen.choice(rng, ['unit', 'int', 'affine']),
                    spacing='random', mult='simple')[0] for p in degs]
    G = np.meshgrid(*[ref_greville(p, U).astype('d') for p, U in zip(degs, Us)], indexing='ij')
    A = np.zeros(G[0].shape + (4,))
    for i in range(dim):
        A[..., i] = G[i]
    X = A[..., :dim].copy()
    gap = []
    for i in range(dim):
        x = np.unique(X[..., i])
        gap.append(np.min(np.diff(x)) if len(x) > 1 else 1)
    X += 0.08 * rng.uniform(-1, 1, X.shape) * np.array(gap)
    Q, _ = np.linalg.qr(rng.normal(size=(dim, dim)))
    X = X @ (Q * np.exp(rng.uniform(-1, 1, dim))).T
    A[..., :dim] = X
    A[..., dim:3] = rng.normal(size=A[..., dim:3].shape)
    w = rng.uniform(0.97, 1.03, A.shape[:-1]) if rng.random() < .6 else np.ones(A.shape[:-1])
    A[..., :3] *= w[..., None]
    A[..., 3] = w
    c.ev('regular-maps')
    return work.NURBS(Us, A)
