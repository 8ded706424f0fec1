"""A write that returns has written the whole file.

Writers of PetIGA and VTK files run while the file may only grow to a given
size (RLIMIT_FSIZE; every offset of small files, sampled ones of larger files),
on a full device, into places where no file can be, with arguments that are
refused after the file was opened, and, under strace, with single failing or
interrupted system calls.  A failed write has to raise, to leave the object as
it was and no file open, and to have no effect on a file written afterwards
under the same name; reads that fail must raise and return nothing."""
import gc, os, pathlib, pickle, resource, signal, subprocess, time
import numpy as np
from igakit.io import PetIGA, VTK
from vlib import gen, work
from vlib.gen import choice
from .c27 import flat, alike
from .c23 import pick


def fds():
    return sorted(os.listdir('/proc/self/fd'), key=int)[:-1]


class Limit(object):
    """Files may grow to n bytes."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


def writer(c, nrb):
    """(what, write(filename), read(filename) or None)"""
    rng = c.rng
    nf = nrb.array.shape[-1] - 4
    prec, scalar, ind = choice(rng, ['double', 'double', 'single']), choice(rng, ['real', 'real', 'complex']), \
        choice(rng, ['32bit', '64bit'])
    rw = PetIGA(prec, scalar, ind)
    k = choice(rng, ['iga', 'iga', 'vec', 'vtk', 'vtk', 'vtk'])
    if k == 'iga':
        kw = choice(rng, [{}, {}, {'control': False}, {'fields': False}, {'nsd': 3}])
        f = lambda fn: rw.write(fn, nrb, **kw)
        r = rw.read
    elif k == 'vec':
        m = int(rng.integers(1, 4))
        A = rng.normal(size=nrb.shape + ((m,) if m > 1 else ()))
        if rng.random() < .3:
            A = rng.normal(size=int(rng.integers(0, 2000)))
            f, r = (lambda fn: rw.write_vec(fn, A)), rw.read_vec
        else:
            f, r = (lambda fn: rw.write_vec(fn, A, nrb)), (lambda fn: rw.read_vec(fn, nrb))
    else:
        kw = {'control': bool(rng.random() < .6)}
        if nf:
            kw['scalars'] = pick(c, nf, False)[0]
            kw['vectors'] = pick(c, nf, True)[0]
        if rng.random() < .3:
            n = int(rng.integers(2, 12))
            kw['sampler'] = lambda u: np.linspace(u[0], u[-1], n)
        w = VTK()
        f, r = (lambda fn: w.write(fn, nrb, **kw)), None
    c.note(writer=k)
    c.ev('writer:' + k)
    return k, f, r


def snap(nrb):
    return [nrb.array.tobytes()] + [U.tobytes() for U in nrb.knots] + [nrb.array.shape]


def content(fn):
    with open(fn, 'rb') as fh:
        return fh.read()


def attempt(f, *a):
    try:
        f(*a)
    except Exception as e:
        return e


def failing(c, what, f, fn, want, nrb, before, other):
    """f(fn) cannot succeed."""
    open_ = fds()
    e = attempt(f, fn)
    return after(c, what, e, f, open_, want, nrb, before, other)


def after(c, what, e, f, open_, want, nrb, before, other):
    c.check(e is not None, 'a write that failed returns as if it had succeeded: ' + what)
    c.check(fds() == open_, 'a failed write leaves a file open: ' + what, error=e, got=fds(), want=open_)
    c.check(snap(nrb) == before, 'a failed write changed the object: ' + what, error=e)
    # the same name again, while the failure is still at hand
    if other:
        f(other)
        e = None
        gc.collect()
        got = content(other)
        c.check(got == want, 'a file written after a failed write is not what it should be: ' + what,
                size=len(got), want=len(want))
    c.ev('failures:' + what.split(' at')[0])


def limits(c, k, f, fn, want, nrb, before):
    rng = c.rng
    n = len(want)
    if n <= (6000 if c.tier == 'thorough' else 700):
        offs = range(n)
        c.ev('files-limited-at-every-byte')
    else:
        # around the sizes of buffers and pages, the first and last bytes, others
        s = set(range(8)) | set(range(max(0, n - 12), n))
        for b in (512, 4096, 8192, 65536):
            s |= {b - 1, b, b + 1, (n // b) * b - 1, (n // b) * b}
        s |= {int(x) for x in rng.integers(0, n, 60)}
        offs = sorted(x for x in s if 0 <= x < n)
    long_ = rng.random() < .5
    for i, lim in enumerate(offs):
        if os.path.exists(fn):
            os.unlink(fn)
        if long_ and i % 3 == 0:
            with open(fn, 'wb') as fh:
                fh.write(b'old' * (n // 2))
        open_ = fds()
        with Limit(lim):
            e = attempt(f, fn)
        after(c, 'size limit at %d of %d' % (lim, n), e, f, open_, want, nrb, before, fn if i % 40 == 0 else None)
        c.check(isinstance(e, (OSError, IOError)), 'the error of a failed write', error=e)
        c.ev('limited-writes')
    os.path.exists(fn) and os.unlink(fn)
    with Limit(n):
        f(fn)
    c.check(content(fn) == want, 'a write into a file that may just grow to its size')
    c.ev('writes-at-the-limit')


def places(c, k, f, r, want, nrb, before):
    """Special names."""
    d = os.path.join(c.tmp, 'p')
    os.mkdir(d)
    ls = lambda: sorted(os.listdir(d))
    failing(c, 'full device', f, '/dev/full', want, nrb, before, None)
    failing(c, 'directory missing', f, os.path.join(d, 'no', 'x'), want, nrb, before, None)
    failing(c, 'name of a directory', f, d, want, nrb, before, None)
    failing(c, 'empty name', f, '', want, nrb, before, None)
    failing(c, 'name with a zero', f, os.path.join(d, 'a\0b'), want, nrb, before, None)
    failing(c, 'name too long', f, os.path.join(d, 'x' * 300), want, nrb, before, None)
    c.check(ls() == [], 'a refused write left files', got=ls())
    # names that are fine
    real = os.path.join(d, 'real')
    os.symlink(real, os.path.join(d, 'link'))
    for name, to in ((os.path.join(d, 'link'), real), (pathlib.Path(d) / 'path', None), (os.fsencode(os.path.join(d, 'bytes')), None),
                     (os.path.join(d, 'a b ü.dat'), None), (os.path.join(d, '%s{0}\\n'), None)):
        if to:
            with open(to, 'wb') as fh:
                fh.write(b'q' * (2 * len(want)))
        f(name)
        c.check(content(to or name) == want, 'the content of a file under another kind of name', name=name)
        c.ev('names')
    # another name of the same file is the same file
    os.link(real, os.path.join(d, 'hard'))
    f(real)
    c.check(content(os.path.join(d, 'hard')) == want, 'the content of a file with two names')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        f('relative')
    finally:
        os.chdir(cwd)
    c.check(content(os.path.join(d, 'relative')) == want, 'the content of a file under a relative name')
    c.check(ls() == sorted(['real', 'link', 'path', 'bytes', 'hard', 'relative', 'a b ü.dat', '%s{0}\\n']),
            'files besides those asked for', got=ls())
    null = attempt(f, os.devnull)
    c.check(null is None and os.path.exists(os.devnull) and not os.path.isfile(os.devnull), 'a write to the null device', error=null)
    if r:
        open_ = fds()
        for bad in (os.path.join(d, 'nothing'), d, '', os.devnull):
            e, x = None, None
            try:
                x = r(bad)
            except Exception as err:
                e = err
            c.check(e is not None, 'reading what cannot be read returns something', name=bad, got=x)
            c.check(fds() == open_, 'a failed read leaves a file open', name=bad, error=e)
            c.ev('failed-reads')
        c.check(not os.path.exists(os.path.join(d, 'nothing')), 'reading creates a file')


class Stop(Exception):
    pass


def midway(c, nrb):
    """Failures from within, after the file may have been opened."""
    rng = c.rng
    before = snap(nrb)
    fn = os.path.join(c.tmp, 'm')
    nf = nrb.array.shape[-1] - 4
    G = rng.normal(size=nrb.shape + (3,))

    class Name(str):
        """A name that fails when it is put into the file."""
        def __str__(self): raise Stop()
        def replace(self, *a): raise Stop()
        def __format__(self, s): raise Stop()
        def encode(self, *a): raise Stop()

    class Loud(np.ndarray):
        def astype(self, *a, **k): raise Stop()
        def tobytes(self, *a, **k): raise Stop()
    good = dict(fields=G, scalars=[('a', 0)], vectors=[('b', [0, 1])])
    ways = [('title', dict(title='Zürich')), ('title of bytes', dict(title=5)),
            ('a scalar name', dict(scalars=[('a', 0), ('né', 1)])), ('a vector name', dict(vectors=[('b', [0]), ('né', [1])])),
            ('an odd name', dict(scalars=[(Name('q'), 0)])), ('a number as name', dict(scalars=[('a', 0), (7, 1)])),
            ('an index', dict(scalars=[('a', 3)])), ('vector indices', dict(vectors=[('a', [0, 1, 2, 0])])),
            ('an index list', dict(vectors=[('a', 5)])), ('fields', dict(fields=G[1:])), ('a sampler', dict(sampler=lambda u: u + 1e9)),
            ('a raising sampler', dict(sampler=lambda u: (_ for _ in ()).throw(Stop()))), ('no pairs', dict(scalars=['abc']))]
    for i in rng.permutation(len(ways))[:5]:
        what, kw = ways[int(i)]
        kw = dict(kw)
        w = VTK()
        w.title = kw.pop('title', w.title)
        kw = dict(good, **kw)
        kw['control'] = ctl = bool(rng.random() < .5)
        v = VTK()
        ok = lambda fn: v.write(fn, nrb, **dict(good, control=ctl))
        ok(fn)
        want = content(fn)
        open_ = fds()
        e = attempt(lambda: w.write(fn, nrb, **kw))
        if e is None:
            c.ev('midway-accepted')
            c.check(fds() == open_, 'a write leaves a file open')
            continue
        after(c, 'refused for ' + what, e, ok, open_, want, nrb, before, fn)
        c.ev('midway')
    rw = PetIGA()
    ways = [('values that are no numbers', lambda: rw.write_vec(fn, ['a', 'b'])), ('a wrong shape', lambda: rw.write_vec(fn, G.ravel()[1:], nrb)),
            ('nsd', lambda: rw.write(fn, nrb, nsd=5)), ('nsd below', lambda: rw.write(fn, nrb, nsd=nrb.dim - 1)),
            ('an object of another kind', lambda: rw.write(fn, None)), ('objects', lambda: rw.write_vec(fn, [object()])),
            ('complex values', lambda: rw.write_vec(fn, [{}, []]))]
    rw.write(fn, nrb)
    want = content(fn)
    for i in rng.permutation(len(ways))[:3]:
        what, g = ways[int(i)]
        open_ = fds()
        e = attempt(g)
        after(c, 'refused for ' + what, e, lambda fn: rw.write(fn, nrb), open_, want, nrb, before, fn)
        c.ev('midway')


# ------------------------------------------------------- failing system calls

STRACE = '/usr/bin/strace'


def injected(c, ways):
    """The writers and readers in a traced process of their own; single system
    calls on their files fail."""
    rng = c.rng
    d = os.path.join(c.tmp, 's')
    os.mkdir(d)
    n = len(ways)
    names = [os.path.join(d, 'f%d' % i) for i in range(n)]
    call, err = choice(rng, [('write', 'ENOSPC'), ('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'EINTR'), ('close', 'EIO'),
                             ('read', 'EIO'), ('read', 'EINTR'), ('openat', 'EMFILE')])
    first, step = int(rng.integers(1, 6)), int(rng.integers(2, 6))
    cmd = [STRACE, '-f', '-qq', '-o', '/dev/null'] + [x for f in names for x in ('-P', f)] + [
        '-e', 'trace=' + call, '-e', 'inject=%s:error=%s:when=%d+%d' % (call, err, first, step)]
    reads = call == 'read'
    want = []
    for f, (k, w, r) in zip(names, ways):
        w(f)
        want.append(flat(r(f)) if reads and r else content(f))
        if not reads:
            os.unlink(f)
    r_, w_ = os.pipe()
    go_r, go_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r_)
            os.close(go_w)
            os.read(go_r, 1)
            out = []
            for f, (k, w, r) in zip(names, ways):
                try:
                    if reads:
                        out.append(('ok', flat(r(f)) if r else None))
                    else:
                        w(f)
                        out.append(('ok', None))
                except Exception as e:
                    out.append(('raised', type(e).__name__))
            with os.fdopen(w_, 'wb') as fh:
                fh.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w_)
    os.close(go_r)
    tracer = subprocess.Popen(cmd + ['-p', str(pid)], stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    # wait for it to be attached
    attached = False
    for _ in range(400):
        with open('/proc/%d/status' % pid) as fh:
            if 'TracerPid:\t0' not in fh.read():
                attached = True
                break
        if tracer.poll() is not None:
            break
        time.sleep(.01)
    os.write(go_w, b'x')
    os.close(go_w)
    with os.fdopen(r_, 'rb') as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    tracer.wait()
    tracer.stderr.close()
    if not attached:
        c.ev('untraced')
        return
    what = '%s failing with %s' % (call, err)
    c.check(data and st == 0, 'a system call that fails ends the process', injected=what)
    out = pickle.loads(data)
    for i, (how, got) in enumerate(out):
        k, w, r = ways[i]
        c.ev('traced-' + ('reads' if reads else 'writes'))
        if how == 'raised':
            c.ev('traced-refused')
            continue
        if reads:
            c.check(r is None or alike(want[i], got), 'a read that failed returns as if it had succeeded', injected=what, writer=k)
        else:
            data = content(names[i])
            c.check(data == want[i], 'a write that failed returns as if it had succeeded', injected=what, writer=k,
                    size=len(data), want=len(want[i]))
    c.ev('traced:%s:%s' % (call, err))


def case(c):
    rng = c.rng
    big = rng.random() < .3
    nrb = work.obj(c, nfields=int(rng.integers(0, 4)), **({'dim': 2, 'maxspan': 9} if big else {}))
    before = snap(nrb)
    if c.idx % 12 == 7 and os.path.exists(STRACE):
        ways = [writer(c, nrb) for _ in range(6)]
        return injected(c, ways)
    k, f, r = writer(c, nrb)
    fn = os.path.join(c.tmp, 'x')
    open_ = fds()
    f(fn)
    c.check(fds() == open_, 'a write leaves a file open')
    want = content(fn)
    c.nontrivial(want)
    c.check(sorted(os.listdir(c.tmp)) == ['x'], 'files besides the one asked for', got=os.listdir(c.tmp))
    if c.idx % 4 == 1:
        places(c, k, f, r, want, nrb, before)
    elif c.idx % 4 == 3:
        midway(c, nrb)
    else:
        limits(c, k, f, fn, want, nrb, before)
