"""Every proper prefix of PetIGA files, and every header integer replaced by
values that contradict the rest: reading must raise."""
import os
import numpy as np
from igakit.io import PetIGA
from igakit.nurbs import NURBS
from .. import gen, work
from ..fmt import Fmt, IGA_ID, VEC_ID, MAT_ID, flat
from ..gen import choice
from ..ref import Obj
from .c21 import kind, rounded


def refuse(c, fn, data, reader, what, keep=None):
    with open(fn, 'wb') as fh:
        fh.write(data)
    try:
        got = reader(fn)
    except Exception as e:
        c.ev('refused:' + type(e).__name__)
        return
    c.fail('%s is accepted' % what, returned=got if not isinstance(got, NURBS) else
           dict(degree=got.degree, shape=got.shape), size=len(data))


def prefixes(c, fn, data, reader, what, most=900):
    n = len(data)
    ks = range(n) if n <= most else sorted(set(range(0, 200)) | set(range(n - 200, n)) |
                                           set(c.rng.integers(0, n, most - 400).tolist()))
    for k in ks:
        refuse(c, fn, data[:k], reader, '%s cut after byte %d of %d' % (what, k, n))
        c.ev('prefixes')
    if n <= most:
        c.ev('files-cut-at-every-byte')
    c.ev('files')


def bad_values(c, v, fmt):
    out = [v + 1, v - 1, v + 2, -v - 1, -1, 0, 2 * v + 1, v ^ 4, v ^ 16, v << 8 & 0xfffff, 7, 1 << 20]
    if fmt.isize == 8:
        out.append(v | 1 << 40)
    return [x for x in dict.fromkeys(out) if x != v and -2 ** 31 <= x < 2 ** 31 or x >> 40 == 1]


def patch(fmt, data, off, v):
    b = fmt.ints(v)
    return data[:off] + b + data[off + len(b):]


def case(c):
    rng = c.rng
    kw = kind(c)
    fmt, io = Fmt(**kw), PetIGA(**kw)
    fn = os.path.join(c.tmp, 'x')
    if c.idx % 3 == 2:
        return vecmat(c, fmt, io, fn)
    big = rng.random() < .1
    nrb = work.obj(c, **({} if big else dict(maxspan=2, maxdeg=2, nfields=int(rng.integers(0, 3)))))
    pre = Obj.of(nrb)
    ctl = rng.random() < .8
    fld = pre.array.shape[-1] > 4 and rng.random() < .8
    nsd = int(rng.integers(pre.dim, 4))
    c.note(control=ctl, fields=fld, nsd=nsd, **kw)
    io.write(fn, nrb, control=ctl, fields=fld, nsd=nsd)
    data = open(fn, 'rb').read()
    io.read(fn)                       # complete: accepted
    c.nontrivial(data)
    prefixes(c, fn, data, io.read, 'an object file')
    # the offsets of the header integers, from the independent writer
    marks = []
    C = np.concatenate([pre.array[..., :nsd], pre.array[..., 3:4]], -1) if ctl else None
    F = pre.array[..., 4:] / pre.array[..., 3:4] if fld else None
    own = fmt.iga(pre.degree, pre.knots, C, F, marks)
    c.check(len(own) == len(data), 'size of the file')
    payload = ctl or fld
    for off, name, v in marks:
        for x in bad_values(c, v, fmt):
            # what a reader cannot know: without control and fields nothing
            # contradicts other degrees, sizes or dimensions; the payload bits
            # can be dropped without contradiction
            if name == 'info' and (x & 3) & ~v == 0:
                continue
            if name in ('p', 'm', 'dim') and not payload and not (
                    name == 'p' and x < 1 or name == 'dim' and not 1 <= x <= 3 or name == 'm' and x < 4):
                continue
            refuse(c, fn, patch(fmt, data, off, x), io.read, 'a file with %s = %d instead of %d' % (name, x, v))
            c.ev('corrupted:' + name.split(':')[-1])
    # read with other settings
    for k, vals in (('precision', ('single', 'double')), ('indices', ('32bit', '64bit'))):
        other = dict(kw)
        other[k] = vals[1 - vals.index(kw[k])]
        if k == 'precision' and not payload:
            continue
        refuse(c, fn, data, PetIGA(**other).read, 'a file read with %s=%s' % (k, other[k]))
        c.ev('other-settings')
    # files of another kind, and no file
    for d, what in ((fmt.vec(rng.random(20)), 'a vector file'), (b'\0' * 64, 'zeros'), (rng.bytes(200), 'noise'),
                    (b'# vtk DataFile Version 2.0\n' * 8, 'text')):
        refuse(c, fn, d, io.read, what)
        c.ev('other-files')


def vecmat(c, fmt, io, fn):
    rng = c.rng
    n = int(rng.integers(1, 40))
    nrb = None
    if rng.random() < .5:
        nrb = work.obj(c, maxspan=2, maxdeg=2)
        k = int(rng.integers(1, 3))
        vals = rng.normal(size=nrb.shape + (k,))
        io.write_vec(fn, vals, nrb)
    else:
        io.write_vec(fn, rng.normal(size=n))
    data = open(fn, 'rb').read()
    reader = lambda f: io.read_vec(f, nrb)
    reader(fn)
    c.nontrivial(data)
    prefixes(c, fn, data, reader, 'a vector file')
    for off, v in ((0, VEC_ID), (fmt.isize, (len(data) - 2 * fmt.isize) // (fmt.rsize * (2 if fmt.cplx else 1)))):
        for x in bad_values(c, v, fmt):
            if off and 0 <= x < v:
                continue              # trailing data contradicts nothing
            refuse(c, fn, patch(fmt, data, off, x), reader, 'a vector file with %d instead of %d' % (x, v))
            c.ev('corrupted:vector')
    M, N = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    D = rng.random((M, N)) < .6
    D[0, 0] = True
    rows = [np.flatnonzero(D[i]) for i in range(M)]
    cols = np.concatenate(rows).astype(int)
    data = fmt.ints(MAT_ID, M, N, len(cols)) + fmt.ints(*[len(x) for x in rows]) + fmt.ints(*cols) + \
        fmt.scalars(rng.normal(size=len(cols)))
    open(fn, 'wb').write(data)
    io.read_mat(fn)
    prefixes(c, fn, data, io.read_mat, 'a matrix file')
    for i, name in ((0, 'id'), (3, 'nz')) + tuple((4 + r, 'row') for r in range(M)):
        v = (MAT_ID, M, N, len(cols), *[len(x) for x in rows])[i]
        for x in bad_values(c, v, fmt):
            refuse(c, fn, patch(fmt, data, i * fmt.isize, x), io.read_mat,
                   'a matrix file with %s = %d instead of %d' % (name, x, v))
            c.ev('corrupted:matrix')
    c.nontrivial(data)
