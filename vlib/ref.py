"""Independent reference semantics, in 80-bit arithmetic, straight from the
definitions (dense Cox-de Boor recursion, Leibniz rule for quotients).  Nothing
here calls the code under test.  Every evaluation also returns the magnitude of
what was summed, so that comparisons are scaled by the actual conditioning."""
import itertools
from math import comb
import numpy as np

L = np.longdouble
EPS = np.finfo('d').eps


def span_of(p, U, u):
    """Index k with U[k] <= u < U[k+1]; the domain's right end belongs to the
    last non-empty span."""
    n = len(U) - p - 2
    k = np.searchsorted(U, u, side='right') - 1
    last = np.searchsorted(U, U[n + 1], side='left') - 1
    return np.clip(k, p, min(n, last))


class Band(object):
    """One row per parameter; row i holds the p+1 coefficients from column
    first[i] on, all others are zero."""

    def __init__(self, rows, first, ncols):
        self.rows, self.first, self.ncols = rows, first, ncols

    def dense(self):
        m, q = self.rows.shape
        B = np.zeros((m, self.ncols), dtype=L)
        B[np.arange(m)[:, None], self.first[:, None] + np.arange(q)] = self.rows
        return B


def bands(p, U, u, der=0, span=None):
    """(values, magnitudes) of the der-th derivative of the B-spline basis
    functions at every u, as Bands."""
    U = np.asarray(U, dtype=L)
    u = np.atleast_1d(np.asarray(u, dtype=L))
    n = len(U) - p - 2
    k = span_of(p, U, u) if span is None else np.asarray(span)
    k = np.broadcast_to(k, u.shape)
    # the knots that matter: U[k-p] ... U[k+p+1]
    T = U[k[:, None] + np.arange(-p, p + 2)]
    N = np.zeros((len(u), 2 * p + 1), dtype=L)
    N[:, p] = 1
    M = N.copy()
    x = u[:, None]
    for d in range(1, p + 1):
        m = 2 * p + 1 - d
        # functions 0..m-1 of degree d, from those of degree d-1
        a = T[:, d:d + m] - T[:, :m]
        b = T[:, d + 1:d + 1 + m] - T[:, 1:1 + m]
        if d > p - der:
            l, r = d * np.ones((1, 1), L), -d * np.ones((1, 1), L)
        else:
            l, r = x - T[:, :m], T[:, d + 1:d + 1 + m] - x
        l, r = np.where(a > 0, l / np.where(a > 0, a, 1), 0), np.where(b > 0, r / np.where(b > 0, b, 1), 0)
        N, M = l * N[:, :-1] + r * N[:, 1:], np.abs(l) * M[:, :-1] + np.abs(r) * M[:, 1:]
    if der > p:
        N, M = np.zeros_like(N), np.zeros_like(N)
    return Band(N, k - p, n + 1), Band(M, k - p, n + 1)


def basis(p, U, u, der=0, span=None):
    """(values, magnitudes) of the der-th derivative of every B-spline basis
    function at every u: two arrays of shape (len(u), n+1)."""
    N, M = bands(p, U, u, der, span)
    return N.dense(), M.dense()


def contract(A, mats):
    """Tensor contraction of A's leading axes with one matrix per axis."""
    for ax, B in enumerate(mats):
        if isinstance(B, Band):
            A = np.moveaxis(A, ax, 0)
            R = np.zeros((len(B.rows),) + A.shape[1:], dtype=L)
            for j in range(B.rows.shape[1]):
                R += B.rows[:, j].reshape((-1,) + (1,) * (A.ndim - 1)) * A[B.first + j]
            A = np.moveaxis(R, 0, ax)
        else:
            A = np.moveaxis(np.tensordot(B, A, axes=(1, ax)), 0, ax)
    return A


def unresolved(w, mag):
    """Where the weight function itself is lost in the rounding of double
    precision: far outside of the domain only, where basis functions are huge
    and cancel (inside, all weights being positive, w == mag)."""
    return np.abs(w) <= L(1e-13) * mag


class Obj(object):
    """A plain snapshot (degrees, knots, homogeneous array) of a NURBS object."""

    def __init__(self, knots, array):
        self.knots = [np.array(U, dtype='d') for U in knots]
        self.array = np.array(array, dtype='d')
        self.dim = len(self.knots)
        self.shape = self.array.shape[:-1]
        self.degree = tuple(len(U) - n - 1 for U, n in zip(self.knots, self.shape))

    @classmethod
    def of(cls, nrb):
        return cls(nrb.knots, nrb.array)

    def domain(self, axis):
        p, U = self.degree[axis], self.knots[axis]
        return U[p], U[-p - 1]

    def valid(self):
        if self.array.ndim - 1 != self.dim:
            return 'array.ndim != dim+1'
        for ax, (p, U, n) in enumerate(zip(self.degree, self.knots, self.shape)):
            if p < 1:
                return 'degree < 1 on axis %d' % ax
            if np.any(np.diff(U) < 0):
                return 'decreasing knots on axis %d' % ax
            if not np.all(np.isfinite(U)):
                return 'non-finite knots on axis %d' % ax
            if not U[p] < U[p + 1]:
                return 'empty first span on axis %d' % ax
            if not U[-p - 2] < U[-p - 1]:
                return 'empty last span on axis %d' % ax
            inn = U[1:-1]
            if len(inn) > p:
                if np.any(inn[p:] == inn[:-p]):
                    return 'interior multiplicity above the degree on axis %d' % ax
        if not np.all(np.isfinite(self.array)):
            return 'non-finite control data'
        return None

    def homog(self, uvw, cols=slice(None), spans=None):
        """Homogeneous values on the tensor grid uvw, and their magnitudes."""
        A = self.array[..., cols].astype(L)
        mats, mags = [], []
        for i in range(self.dim):
            N, M = bands(self.degree[i], self.knots[i], uvw[i], 0,
                         None if spans is None else spans[i])
            mats.append(N)
            mags.append(M)
        return contract(A, mats), contract(np.abs(A), mags)

    def eval(self, uvw, F=None, spans=None):
        """Cartesian points and fields: (values, error scale), last axis is
        x,y,z,field...  F: control values to use as fields (not weighted)."""
        A = self.array
        if F is not None:
            F = np.asarray(F, dtype='d').reshape(self.shape + (-1,))
            save = self.array
            self.array = np.concatenate([A[..., :4], F * A[..., 3:4]], axis=-1)
            try:
                return self.eval(uvw, None, spans)
            finally:
                self.array = save
        H, S = self.homog(uvw, spans=spans)
        w, sw = H[..., 3:4], S[..., 3:4]
        sel = [0, 1, 2] + list(range(4, A.shape[-1]))
        V = H[..., sel] / w
        E = S[..., sel] / abs(w) + abs(V) * sw / abs(w)
        return V, np.where(unresolved(w, sw), L(np.inf), E)

    def jets(self, uvw, order, F, spans=None):
        """All partial derivatives up to `order` of the rational fields F
        (control values): dict multi-index -> (values, magnitude)."""
        F = np.asarray(F, dtype='d').reshape(self.shape + (-1,)).astype(L)
        w = self.array[..., 3:4].astype(L)
        A = np.concatenate([F * w, w], axis=-1)
        dim = self.dim
        bm = [[bands(self.degree[i], self.knots[i], uvw[i], r,
                     None if spans is None else spans[i])
               for r in range(order + 1)] for i in range(dim)]
        idx = [a for a in itertools.product(range(order + 1), repeat=dim)
               if sum(a) <= order]
        idx.sort(key=sum)
        H = {a: (contract(A, [bm[i][a[i]][0] for i in range(dim)]),
                 contract(abs(A), [bm[i][a[i]][1] for i in range(dim)]))
             for a in idx}
        w0 = H[(0,) * dim][0][..., -1:]
        out = {}
        for a in idx:
            num, mag = H[a][0][..., :-1].copy(), H[a][1][..., :-1].copy()
            for b in itertools.product(*[range(k + 1) for k in a]):
                if sum(b) == 0:
                    continue
                c = 1
                for k, j in zip(a, b):
                    c *= comb(k, j)
                r = tuple(k - j for k, j in zip(a, b))
                num -= c * H[b][0][..., -1:] * out[r][0]
                mag += c * H[b][1][..., -1:] * out[r][1]
            mag0 = H[(0,) * dim][1][..., -1:]
            val = num / w0
            out[a] = (val, np.where(unresolved(w0, mag0), L(np.inf), mag / abs(w0) + abs(val) * mag0 / abs(w0)))
        return out

    def deriv(self, order, uvw, F, spans=None):
        """Derivative tensor [..., ncomp, dim, ..., dim] and its error scale."""
        J = self.jets(uvw, order, F, spans)
        dim = self.dim
        v0 = J[(0,) * dim][0]
        V = np.zeros(v0.shape + (dim,) * order, dtype=L)
        E = np.zeros_like(V)
        for t in itertools.product(range(dim), repeat=order):
            a = tuple(t.count(i) for i in range(dim))
            V[(Ellipsis,) + t] = J[a][0]
            E[(Ellipsis,) + t] = J[a][1]
        return V, E

    def coords(self):
        return self.array[..., :3] / self.array[..., 3:4]

    def scale(self):
        """Largest Cartesian/field magnitude (at least tiny)."""
        w = self.array[..., 3:4]
        C = np.delete(self.array, 3, axis=-1) / w
        return float(np.max(np.abs(C))) or 1.0

    def wratio(self):
        w = np.abs(self.array[..., 3])
        return float(w.max() / w.min())


def samples(p, U, rng=None, per=2, ends=True, knots=True):
    """Parameters that exercise every span: interior points, every break, and
    both sides of every break at distance of a few ulps."""
    U = np.asarray(U, dtype='d')
    a, b = U[p], U[-p - 1]
    br = np.unique(U[p:len(U) - p])
    out = []
    k, inner = np.arange(len(br) - 1), br[1:-1]
    if len(k) > 250:
        # some of very many
        r = rng or np.random.default_rng(len(k))
        k = np.unique(np.concatenate([[0, 1, len(k) - 2, len(k) - 1], r.integers(0, len(k), 120)]))
        inner = np.unique(np.concatenate([inner[:2], inner[-2:], inner[r.integers(0, len(inner), 80)]]))
    for lo, hi in zip(br[k], br[k + 1]):
        for t in range(per):
            f = (t + 0.5) / per if rng is None else rng.uniform(0.02, 0.98)
            out.append(lo + f * (hi - lo))
    if knots:
        out += list(inner)
    if ends:
        out += [a, b]
    out = np.array(out)
    return np.unique(np.clip(out, a, b))


def bump(u, a, b, rng):
    """Neighbouring floats of u, clipped to [a,b]."""
    k = int(rng.integers(1, 4))
    v = np.array(u, dtype='d')
    for _ in range(k):
        v = np.nextafter(v, rng.choice([-np.inf, np.inf], size=v.shape))
    return np.clip(v, a, b)
