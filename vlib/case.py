"""One generated execution: its random source, what its monitors saw, and what
they object to."""
import hashlib, json, os, zlib
import numpy as np

EPS = np.finfo('d').eps
L = np.longdouble


class Violation(Exception):
    """Raised to stop a case whose violation is already recorded."""


def short(x, n=400):
    if isinstance(x, np.ndarray):
        with np.printoptions(precision=17, threshold=40, edgeitems=4, linewidth=200):
            x = 'array%s %s' % (x.shape, np.array2string(x))
    elif not isinstance(x, (int, float, bool, str, type(None))):
        x = repr(x)
    if isinstance(x, str) and len(x) > n:
        x = x[:n] + '...'
    return x


class Case(object):

    def __init__(self, prop, seed, idx, tier='quick', tmp=None, verbose=False):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        self.rng = np.random.default_rng([seed & 0x7fffffff, zlib.crc32(prop.encode()), idx])
        self.tmp = tmp
        self.events = {}
        self.keys = []
        self.fails = []
        self.knowns = {}
        self.sample = None
        self.desc = {}
        self.verbose = verbose

    # -- outputs of the code, for comparison between builds

    hash = None
    trail = ()

    def observe(self, what, *arrays):
        if self.hash is None:
            return
        for a in arrays:
            if isinstance(a, (tuple, list)):
                self.observe(what, *a)
            elif isinstance(a, (np.ndarray, float, int, np.generic)):
                a = np.array(a)
                if a.dtype.kind == 'f':
                    a[np.isnan(a)] = np.nan
                self.hash.update(repr((what, a.shape, a.dtype.str)).encode())
                self.hash.update(np.ascontiguousarray(a).tobytes())
        self.ev('outputs-hashed')

    # -- what was observed

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def nontrivial(self, *what):
        h = hashlib.blake2b(digest_size=6)
        for w in what:
            if isinstance(w, np.ndarray):
                h.update(np.ascontiguousarray(w).tobytes())
            else:
                h.update(repr(w).encode())
            h.update(b'|')
        self.keys.append(h.hexdigest())

    def note(self, **kw):
        """Describes the case (kept for the evidence samples and replays)."""
        for k, v in kw.items():
            self.desc[k] = short(v)

    # -- what is objected to

    def fail(self, what, stop=True, **detail):
        self.fails.append((what, {k: short(v) for k, v in detail.items()}))
        if stop or len(self.fails) > 5:
            raise Violation(what)

    def known(self, key, what):
        """A failure that known_findings.txt lists under `key`."""
        self.knowns.setdefault(key, what)

    def check(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)

    def same(self, got, want, what, **detail):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want):
            self.fail(what, got=got, want=want, **detail)

    def near(self, got, want, scale, what, K=2000.0, **detail):
        """|got - want| <= K*eps*scale, elementwise; shapes must agree."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(what + ': wrong shape', got=got.shape, want=want.shape, **detail)
        if got.size == 0:
            return 0.0
        err = np.abs(got.astype(L) - want)
        tol = K * EPS * np.asarray(scale, dtype=L) + L(1e-280)
        bad = ~(err <= tol)
        if np.any(bad):
            # the reference itself is undefined there (a vanishing weight
            # function outside of the domain): nothing to compare with
            lost = ~np.isfinite(want.astype(L)) | ~(tol <= 1e3 * (1 + np.abs(want.astype(L))))
            bad &= ~(lost & ~np.isfinite(got))
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err / tol))), err.shape) \
                if err.ndim else ()
            self.fail(what, index=i, got=float(got[i]), want=float(want[i]),
                      error=float(err[i]), tolerance=float(np.broadcast_to(tol, err.shape)[i]),
                      nbad=int(bad.sum()), of=int(bad.size), **detail)
        return float(np.max(err / tol))
