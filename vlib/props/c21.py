"""PetIGA files: what is written is parsed by an independent reader, what an
independent writer produced is read by the code, and both directions meet."""
import os, pathlib
import numpy as np
from igakit.io import PetIGA
from igakit.nurbs import NURBS
from .. import gen, work
from ..fmt import Fmt, Bad, flat
from ..gen import choice
from ..ref import Obj, L, EPS


def kind(c):
    kw = dict(precision=choice(c.rng, ['double', 'double', 'single']),
              scalar=choice(c.rng, ['real', 'real', 'complex']),
              indices=choice(c.rng, ['32bit', '32bit', '64bit']))
    c.ev('%(precision)s-%(scalar)s-%(indices)s' % kw)
    return kw


def rounded(A, fmt):
    """A in the written precision."""
    A = np.asarray(A, 'd')
    return A.astype('f').astype('d') if fmt.r == 'f' else A


def path(c, name='x'):
    p = os.path.join(c.tmp, name)
    if c.rng.random() < .3:
        open(p, 'wb').write(b'z' * int(c.rng.integers(1, 60000)))    # overwritten, not appended to
    return choice(c.rng, [str, str, pathlib.Path])(p)


def greville(p, U):
    U = np.asarray(U, L)
    return np.array([np.sum(U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)])


def case(c):
    r = c.idx % 4
    if r == 3:
        return vectors(c)
    nrb = work.obj(c)
    for _ in range(int(c.rng.integers(0, 3))):           # any memory layout of the object
        k = int(c.rng.integers(3))
        if k == 0:
            nrb.transpose()
        elif k == 1:
            nrb.reverse()
        else:
            nrb = nrb.copy()
    kw = kind(c)
    fmt, io = Fmt(**kw), PetIGA(**kw)
    (foreign if r == 2 else roundtrip)(c, nrb, fmt, io, kw)


def roundtrip(c, nrb, fmt, io, kw):
    rng = c.rng
    pre = Obj.of(nrb)
    dim = pre.dim
    opts = {}
    if rng.random() < .4:
        opts['nsd'] = choice(rng, [None] + list(range(dim, 4)))
    for k in ('control', 'fields'):
        if rng.random() < .4:
            opts[k] = bool(rng.random() < .6)
    c.note(options=opts, **kw)
    fn = path(c)
    io.write(fn, nrb, **opts)
    post = Obj.of(nrb)
    c.same(post.array, pre.array, 'write changed the object')
    data = open(fn, 'rb').read()
    try:
        f = fmt.parse(data)
    except Bad as e:
        c.fail('the file does not follow the format: %s' % e)
    ctl, fld = opts.get('control', True), opts.get('fields', True) and pre.array.shape[-1] > 4
    nsd = opts.get('nsd') or dim
    c.check(f['info'] == (1 if ctl else 0) + (2 if fld else 0), 'info flags', got=f['info'])
    c.check(f['dim'] == dim and tuple(f['degree']) == pre.degree, 'dimension and degrees', got=f['degree'])
    for a, U in zip(f['knots'], pre.knots):
        c.same(np.array(a), rounded(U, fmt), 'knots in the file')
    C = F = None
    if ctl:
        c.check(f['nsd'] == nsd, 'geometry dimension', got=f['nsd'], want=nsd)
        C = np.concatenate([pre.array[..., :nsd], pre.array[..., 3:4]], -1)
        c.same(f['C'], rounded(C, fmt), 'control points in the file')
        c.ev('control-written')
    if fld:
        F = pre.array[..., 4:] / pre.array[..., 3:4]
        c.check(f['npd'] == F.shape[-1], 'number of fields', got=f['npd'])
        one(c, f['F'], F, fmt, 'fields in the file')
        c.ev('fields-written')
    got = io.read(choice(rng, [str, pathlib.Path])(fn))
    returned(c, got, pre.degree, [rounded(U, fmt) for U in pre.knots],
             None if C is None else rounded(C, fmt), F, fmt)
    c.ev('round-trips')
    c.nontrivial(data)
    # written again from what was read, the file is the same
    if ctl and rng.random() < .4:
        io.write(fn, got, **opts)
        again = open(fn, 'rb').read()
        c.check(len(again) == len(data), 'second generation: size of the file')
        g = fmt.parse(again)
        c.same(g['C'], f['C'], 'second generation: control points')
        for a, b in zip(g['knots'], f['knots']):
            c.same(a, b, 'second generation: knots')
        c.ev('second-generation')


def one(c, got, want, fmt, what):
    """want up to one rounding in the written precision (a field is a quotient)"""
    e = np.finfo('f').eps if fmt.r == 'f' else EPS
    c.near(np.real(got), want, np.abs(want) + 1e-40, what, K=3 * e / EPS)
    if np.iscomplexobj(got):
        c.same(np.imag(got), 0 * np.imag(got), what + ': imaginary part')


def returned(c, got, degree, knots, C, F, fmt):
    c.check(isinstance(got, NURBS), 'read did not return an object')
    c.check(tuple(got.degree) == tuple(degree), 'read: degrees', got=got.degree, want=degree)
    for a, b in zip(got.knots, knots):
        c.same(a, b, 'read: knots')
        c.check(a.dtype == np.dtype('d') and a.dtype.isnative, 'read: knots are not native doubles')
    shape = tuple(len(U) - p - 1 for p, U in zip(degree, knots))
    c.check(got.shape == shape, 'read: shape', got=got.shape, want=shape)
    c.check(got.array.dtype == np.dtype('d'), 'read: not native doubles')
    A = np.zeros(shape + (4,))
    if C is not None:
        A[..., :C.shape[-1] - 1] = C[..., :-1]
        A[..., 3] = C[..., -1]
        c.same(got.control, A, 'read: control points')
    else:
        for i, (p, U) in enumerate(zip(degree, knots)):
            A[..., i] += greville(p, U).reshape([-1 if j == i else 1 for j in range(len(shape))])
        A[..., 3] = 1
        e = max(np.finfo('f').eps if fmt.r == 'f' else EPS, EPS)
        c.near(got.control, A, np.abs(A) + max(np.max(np.abs(U)) for U in knots), 'read: identity geometry', K=8 * e / EPS)
        c.ev('identity-geometry')
    if F is None:
        c.check(got.fields is None or got.fields.size == 0, 'read: fields out of nowhere')
    else:
        c.check(got.fields is not None and got.fields.shape == F.shape, 'read: shape of the fields')
        one(c, got.fields, F, fmt, 'read: fields')


def foreign(c, nrb, fmt, io, kw):
    """A file that igakit did not write."""
    rng = c.rng
    pre = Obj.of(nrb)
    nsd = int(rng.integers(pre.dim, 4))
    ctl = rng.random() < .75
    npd = int(rng.integers(0, 4))
    C = F = None
    if ctl:
        C = rng.normal(size=pre.shape + (nsd + 1,)) * choice(rng, [1, 1e3, 1e-3])
        C[..., -1] = rng.uniform(.2, 5, pre.shape)
        C = rounded(C, fmt)
    if npd:
        F = rounded(rng.normal(size=pre.shape + (npd,)) * choice(rng, [1, 1e5]), fmt)
    knots = [rounded(U, fmt) for U in pre.knots]
    c.note(nsd=nsd, control=ctl, npd=npd, **kw)
    data = fmt.iga(pre.degree, knots, C, F)
    fn = path(c)
    open(fn, 'wb').write(data)
    got = io.read(fn)
    returned(c, got, pre.degree, knots, C, F, fmt)
    c.ev('foreign-files')
    c.nontrivial(data)
    # and written back with the same choices
    io.write(fn, got, control=ctl, nsd=nsd)
    f = fmt.parse(open(fn, 'rb').read())
    if ctl:
        c.same(f['C'], C, 'control points written back')
    if npd:
        one(c, f['F'], F, fmt, 'fields written back')


def vectors(c):
    rng = c.rng
    kw = kind(c)
    fmt, io = Fmt(**kw), PetIGA(**kw)
    nrb = work.obj(c)
    fn = path(c)
    nc = int(rng.integers(1, 5))

    def values(shape):
        A = rng.normal(size=shape) * 10.0 ** rng.integers(-6, 7)
        if fmt.cplx:
            A = A + 1j * rng.normal(size=shape)
        return rounded(A.real, fmt) + 1j * rounded(A.imag, fmt) if fmt.cplx else rounded(A, fmt)
    # a vector without an object: order kept
    large = rng.random() < .03
    if large:
        c.ev('large')
    A = values((int(rng.integers(33000, 70000) if large else rng.integers(0, 50)),))
    arg = choice(rng, [lambda x: x, lambda x: x.tolist(), lambda x: np.repeat(x, 2)[::2]])(A)
    io.write_vec(fn, arg)
    c.check(open(fn, 'rb').read() == fmt.vec(A), 'bytes of a vector file')
    got = io.read_vec(fn)
    c.same(got, A, 'vector read back')
    c.check(got.dtype.isnative, 'vector: byte order')
    ntype = np.dtype({'f': 'F', 'd': 'D'}[fmt.r] if fmt.cplx else fmt.r)
    c.check(got.dtype == ntype, 'vector: number type', got=got.dtype, want=ntype)
    # a vector over an object: component fastest, then first axis
    A = values(nrb.shape + (nc,))
    form = choice(rng, ['grid', 'flat', 'rows', 'fortran', 'squeezed', 'rows-fortran', 'strided', 'squeezed-fortran'])
    B = dict(grid=A, flat=A.reshape(-1), rows=A.reshape(-1, nc), fortran=np.asfortranarray(A),
             squeezed=A[..., 0], strided=np.repeat(A, 2, axis=-1)[..., ::2])
    B['rows-fortran'] = np.asfortranarray(B['rows'])
    B['squeezed-fortran'] = np.asfortranarray(A[..., 0])
    B = B[form]
    if form.startswith('squeezed'):
        A = A[..., :1]
        nc = 1
    keep = B.copy()
    io.write_vec(fn, B, nrb)
    c.same(B, keep, 'write_vec changed its argument')
    data = open(fn, 'rb').read()
    c.check(data == fmt.vec(flat(A)), 'bytes of a vector over an object', form=form)
    got = io.read_vec(fn, nrb)
    c.same(got, A[..., 0] if nc == 1 else A, 'vector over an object read back')
    c.check(got.dtype == ntype, 'vector over an object: number type', got=got.dtype, want=ntype)
    c.same(io.read_vec(fn), np.array(flat(A)), 'vector read without the object')
    c.ev('vectors', 2)
    # a matrix
    M, N = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if large:
        M, N = int(rng.integers(180, 300)), int(rng.integers(300, 400))
    D = rng.random((M, N)) < rng.random()
    rows = [np.flatnonzero(D[i]) for i in range(M)]
    cols = np.concatenate(rows).astype(int)
    V = values((len(cols),))
    from ..fmt import MAT_ID
    data2 = fmt.ints(MAT_ID, M, N, len(cols)) + fmt.ints(*[len(x) for x in rows]) + fmt.ints(*cols) + fmt.scalars(V)
    fn2 = path(c, 'm')
    open(fn2, 'wb').write(data2)
    (m, n), (AI, AJ, AV) = io.read_mat(fn2)
    c.check((m, n) == (M, N), 'matrix: size', got=(m, n), want=(M, N))
    c.same(AI, np.concatenate([[0], np.cumsum([len(x) for x in rows])]), 'matrix: row pointers')
    c.same(AJ, cols, 'matrix: columns')
    c.same(AV, V, 'matrix: values')
    c.ev('matrices')
    c.nontrivial(data, data2)
