"""Independent readers and writers of the file formats, byte by byte with
struct: PETSc/PetIGA binary files (big endian) and legacy VTK files."""
import struct
import numpy as np

IGA_ID, VEC_ID, MAT_ID = 1211299, 1211214, 1211216


class Bad(Exception):
    pass


class Fmt(object):
    """precision single/double, scalar real/complex, indices 32bit/64bit"""

    def __init__(self, precision='double', scalar='real', indices='32bit'):
        self.i = {'32bit': 'i', '64bit': 'q'}[indices]
        self.r = {'single': 'f', 'double': 'd'}[precision]
        self.cplx = scalar == 'complex'
        self.isize = struct.calcsize('>' + self.i)
        self.rsize = struct.calcsize('>' + self.r)

    # -- writing

    def ints(self, *v):
        return struct.pack('>%d%s' % (len(v), self.i), *[int(x) for x in v])

    def reals(self, v):
        v = [float(x) for x in v]
        return struct.pack('>%d%s' % (len(v), self.r), *v)

    def scalars(self, v):
        if not self.cplx:
            return self.reals(v)
        out = []
        for x in v:
            x = complex(x)
            out += [x.real, x.imag]
        return self.reals(out)

    def vec(self, values):
        values = list(values)
        return self.ints(VEC_ID, len(values)) + self.scalars(values)

    def iga(self, degree, knots, C=None, F=None, marks=None):
        """C: shape+(nsd+1,) homogeneous control, F: shape+(npd,).  marks gets
        (offset, name) of every header integer."""
        out = b''
        marks = [] if marks is None else marks

        def head(name, v):
            nonlocal out
            marks.append((len(out), name, int(v)))
            out += self.ints(v)
        head('id', IGA_ID)
        head('info', (1 if C is not None else 0) | (2 if F is not None else 0))
        head('dim', len(degree))
        for p, U in zip(degree, knots):
            head('p', p)
            head('m', len(U))
            out += self.reals(U)
        for A, name, k in ((C, 'nsd', -1), (F, 'npd', 0)):
            if A is None:
                continue
            head(name, A.shape[-1] + k)
            head(name + ':vecid', VEC_ID)
            head(name + ':size', A.size)
            out += self.scalars(flat(A))
        return out

    # -- reading

    def parse(self, data):
        pos = [0]

        def take(n):
            b = data[pos[0]:pos[0] + n]
            if n < 0 or len(b) != n:
                raise Bad('file ends at byte %d, %d more needed' % (len(data), n - len(b)))
            pos[0] += n
            return b

        def ints(n=1):
            return struct.unpack('>%d%s' % (n, self.i), take(n * self.isize))

        def reals(n):
            return list(struct.unpack('>%d%s' % (n, self.r), take(n * self.rsize)))

        def scal(n):
            if not self.cplx:
                return reals(n)
            v = reals(2 * n)
            return [complex(a, b) for a, b in zip(v[::2], v[1::2])]
        ident, info, dim = ints(3)
        if ident != IGA_ID:
            raise Bad('identifier %d' % ident)
        if info & ~3:
            raise Bad('info %d' % info)
        if not 1 <= dim <= 3:
            raise Bad('dim %d' % dim)
        deg, knots, shape = [], [], []
        for _ in range(dim):
            p, m = ints(2)
            deg.append(p)
            shape.append(m - p - 1)
            knots.append(reals(m))
        n = int(np.prod(shape))
        out = dict(info=info, dim=dim, degree=deg, knots=knots, C=None, F=None, nsd=None, npd=None)
        for bit, a, b, k in ((1, 'C', 'nsd', 1), (2, 'F', 'npd', 0)):
            if info & bit:
                c, vid, size = ints(3)
                if vid != VEC_ID:
                    raise Bad('%s: vector identifier %d' % (a, vid))
                if size != (c + k) * n:
                    raise Bad('%s: size %d, not %d' % (a, size, (c + k) * n))
                out[b] = c
                out[a] = unflat(scal(size), shape, c + k)
        if pos[0] != len(data):
            raise Bad('%d bytes after the end' % (len(data) - pos[0]))
        return out


def flat(A):
    """Component fastest, then the first, second, third axis."""
    A = np.asarray(A)
    dim = A.ndim - 1
    out = []
    for k in (range(A.shape[2]) if dim > 2 else [0]):
        for j in (range(A.shape[1]) if dim > 1 else [0]):
            for i in range(A.shape[0]):
                out += list(A[(i, j, k)[:dim]])
    return out


def unflat(v, shape, nc):
    A = np.empty(tuple(shape) + (nc,), dtype=complex if v and isinstance(v[0], complex) else float)
    dim = len(shape)
    it = iter(v)
    for k in (range(shape[2]) if dim > 2 else [0]):
        for j in (range(shape[1]) if dim > 1 else [0]):
            for i in range(shape[0]):
                for c in range(nc):
                    A[(i, j, k)[:dim] + (c,)] = next(it)
    return A


# ------------------------------------------------------------------- VTK

def parse_vtk(data):
    """Strict reader of legacy binary files with one STRUCTURED_GRID or
    RECTILINEAR_GRID dataset and POINT_DATA of SCALARS (1 component, default
    table) and VECTORS, all double."""
    pos = 0

    def line():
        nonlocal pos
        e = data.find(b'\n', pos)
        if e < 0:
            raise Bad('no end of line after byte %d' % pos)
        s = data[pos:e]
        pos = e + 1
        try:
            return s.decode('ascii')
        except UnicodeDecodeError:
            raise Bad('binary data where a keyword is expected, byte %d' % e)

    def doubles(n):
        nonlocal pos
        b = data[pos:pos + 8 * n]
        if len(b) != 8 * n:
            raise Bad('data ends too early')
        pos += 8 * n
        if data[pos:pos + 1] != b'\n':
            raise Bad('no newline after %d values at byte %d' % (n, pos))
        pos += 1
        return np.array(struct.unpack('>%dd' % n, b))

    def words(n, *fixed):
        w = line().split(' ')
        if len(w) != n:
            raise Bad('bad line %r' % (w,))
        for i, f in fixed:
            if w[i] != f:
                raise Bad('bad line %r: expected %r' % (w, f))
        return w
    if line() != '# vtk DataFile Version 2.0':
        raise Bad('version line')
    out = dict(title=line())
    if len(out['title']) > 255:
        raise Bad('title too long')
    if line() != 'BINARY':
        raise Bad('not BINARY')
    out['type'] = words(2, (0, 'DATASET'))[1]
    w = words(4, (0, 'DIMENSIONS'))
    dims = out['dims'] = tuple(int(x) for x in w[1:])
    n = int(np.prod(dims))
    if min(dims) < 1:
        raise Bad('dimensions')
    if out['type'] == 'STRUCTURED_GRID':
        w = words(3, (0, 'POINTS'), (2, 'double'))
        if int(w[1]) != n:
            raise Bad('POINTS %s, dimensions %s' % (w[1], dims))
        P = doubles(3 * n).reshape(n, 3)
        out['points'] = grid(P, dims)
    elif out['type'] == 'RECTILINEAR_GRID':
        out['coords'] = []
        for d, X in zip(dims, 'XYZ'):
            w = words(3, (0, X + '_COORDINATES'), (2, 'double'))
            if int(w[1]) != d:
                raise Bad('%s_COORDINATES %s, dimension %d' % (X, w[1], d))
            out['coords'].append(doubles(d))
    else:
        raise Bad('dataset ' + out['type'])
    out['data'] = []
    if pos == len(data):
        return out
    w = words(2, (0, 'POINT_DATA'))
    if int(w[1]) != n:
        raise Bad('POINT_DATA %s' % w[1])
    while pos < len(data):
        w = line().split(' ')
        if len(w) != 3 or w[2] != 'double' or w[0] not in ('SCALARS', 'VECTORS') or not w[1]:
            raise Bad('bad attribute line %r' % (w,))
        if w[0] == 'SCALARS':
            words(2, (0, 'LOOKUP_TABLE'), (1, 'default'))
            A = doubles(n).reshape(n, 1)
        else:
            A = doubles(3 * n).reshape(n, 3)
        out['data'].append((w[0], w[1], grid(A, dims)))
    return out


def grid(A, dims):
    """(N, c), first index fastest -> dims + (c,)"""
    out = np.empty(dims + (A.shape[1],))
    m = 0
    for k in range(dims[2]):
        for j in range(dims[1]):
            for i in range(dims[0]):
                out[i, j, k] = A[m]
                m += 1
    return out
