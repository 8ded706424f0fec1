"""Memory safety and definedness of the native code.

The workloads of the other properties, direct low-level calls in every array
layout, and refused requests run on builds whose native code is instrumented:
AddressSanitizer + UBSan with Fortran bounds checks (any report ends the
process, which the driver records as a violation), and two builds that fill
locals, temporaries, heap blocks and numpy.empty() with different garbage.  The outputs of the
last two are hashed and must be equal bit for bit."""
import functools, hashlib, importlib
import numpy as np
from vlib import gen, native
from vlib.case import Case, Violation
from vlib.gen import choice

POOL = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c11', 'c14', 'c16', 'c17', 'c18', 'c19', 'c20', 'c24', 'c02']


def start(cfg):
    """numpy hands out small blocks again without the C library noticing: what
    numpy.empty() and its like give is filled here."""
    fill = {'poison': (np.nan, -99999999), 'poison2': (1e150, 7)}.get(cfg['flavour'])
    if fill is None:
        return

    def filled(f):
        @functools.wraps(f)
        def g(*a, **kw):
            r = f(*a, **kw)
            if type(r) is np.ndarray and r.dtype.kind in 'fc':
                r.fill(fill[0])
            elif type(r) is np.ndarray and r.dtype.kind in 'iu':
                r.fill(fill[1] if r.dtype.itemsize > 2 and r.dtype.kind == 'i' else abs(fill[1]) % 100)
            FILLED[0] += 1
            return r
        return g
    np.empty, np.empty_like = filled(np.empty), filled(np.empty_like)


FILLED = [0]


def digest(x):
    """Bytes of an outcome as c27.flat gives it."""
    if isinstance(x, list):
        return b'[' + b','.join(digest(y) for y in x) + b']'
    if isinstance(x, (np.ndarray, np.generic)):
        x = np.asarray(x)
        return repr((x.shape, x.dtype.str)).encode() + np.ascontiguousarray(x).tobytes()
    return x if isinstance(x, bytes) else repr(x).encode()


class Sub(Case):
    """A borrowed case: what its own judges say is not this property."""

    def known(self, key, what):
        pass


def case(c):
    c.hash = hashlib.blake2b(digest_size=10) if c.flavour != 'asan' else None
    if c.idx % 2 == 0:
        mod = importlib.import_module('vlib.props.' + POOL[(c.idx // 2) % len(POOL)])
        s = Sub('C12', c.seed, c.idx, c.tier, c.tmp)
        s.idx = 1000003 + c.idx         # not one of the fixed cases
        s.hash = c.hash
        s.flavour = c.flavour
        try:
            mod.case(s)
        except Violation:
            c.ev('borrowed:objected')
        except Exception:
            c.ev('borrowed:raised')
        c.note(borrowed=mod.__name__, **s.desc)
        c.ev('borrowed')
        c.ev('borrowed:' + mod.__name__[-3:])
        for k, v in s.events.items():
            if k == 'outputs-hashed' or k == 'refused':
                c.ev(k, v)
        for k in s.keys or [str(c.idx)]:
            c.nontrivial(k)
        return
    log = []
    for _ in range(25):
        name, f = native.one(c)
        log.append(name)
        c.note(calls=log)
        r = f()
        c.ev('native-calls')
        c.ev('native:' + name)
        c.observe(name, r)
    from vlib.props import c11
    for _ in range(6):
        what, g = choice(c.rng, c11.LOW)(c, None)
        log.append('invalid ' + what)
        c.note(calls=log)
        try:
            g()
        except Exception:
            c.ev('native-refused')
    # the rest of the library: objects, files, constructions, drawings
    from vlib.props import c13, c27
    n0 = FILLED[0]
    one = [lambda x=x: x for x in (c13.io.PetIGA(), c13.io.VTK(), c13.transform().rotate(1, 2))]
    c.services = one
    objs = [gen.make(c.rng, c13.NURBS, maxspan=3, maxdeg=3)[0] for _ in range(2)]
    jobs = [choice(c.rng, [c13.query, c13.private, c13.make, c13.make])(c, objs) for _ in range(4)]
    datas, degs = c27.twins(c.rng, 2)
    more = c27.requests(c, datas, degs, 2) + c27.shapes(c, 1)
    jobs += [more[int(i)] for i in c.rng.permutation(len(more))[:4]]
    for name, f in jobs:
        log.append(name)
        c.note(calls=log)
        r = c27.outcome(f)
        c.ev('python-calls')
        if c.hash is not None:
            c.hash.update(digest(r))
            c.ev('outputs-hashed')
    c.ev('python-arrays-filled', FILLED[0] - n0)
    c.nontrivial(str(log), c.rng.integers(2 ** 40))
