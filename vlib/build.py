"""Builds igakit from /repo's working tree into a private, content-addressed
directory, in several native flavours.  Nothing is written into /repo and the
editable install (whose import hook would run ninja in /opt) is not used."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile, sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_BUILD', os.path.join(HERE, '.build'))
PY = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'

# flavour -> (fortran flags, C flags, link flags, preloads, env)
FLAVOURS = {
    'plain': (['-O3'], ['-O2', '-DNDEBUG'], [], [], {}),
    # heap/stack red zones + UB + Fortran array-bounds checks; every fault fatal
    'asan': (['-O1', '-g', '-fsanitize=address,undefined',
              '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
              '-fcheck=bounds,mem,pointer,do', '-fno-automatic-placeholder'],
             ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment,shift',
              '-fno-sanitize-recover=address', '-fno-omit-frame-pointer'],
             ['-fsanitize=address,undefined'], ['libasan.so'],
             {'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:abort_on_error=1:'
                              'detect_stack_use_after_return=0:allocator_may_return_null=1:'
                              'max_malloc_fill_size=1048576:malloc_fill_byte=255',
              'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=1'}),
    # uninitialised locals/temporaries become signalling-like NaNs / absurd ints
    'poison': (['-O1', '-g', '-finit-real=snan', '-finit-integer=-99999999',
                '-finit-logical=true', '-fcheck=bounds,mem,pointer,do'],
               ['-O1', '-g'], [], [], {'MALLOC_PERTURB_': '165'}),
    # the same code with other garbage: results must not differ
    'poison2': (['-O1', '-g', '-finit-real=zero', '-finit-integer=7',
                 '-finit-logical=false', '-fcheck=bounds,mem,pointer,do'],
                ['-O1', '-g'], [], [], {'MALLOC_PERTURB_': '90'}),
    'tsan': (['-O1', '-g', '-fsanitize=thread'],
             ['-O1', '-g', '-fsanitize=thread'],
             ['-fsanitize=thread'], ['libtsan.so'],
             {'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:'
                              'history_size=4:second_deadlock_stack=0'}),
    'debug': (['-O0', '-g'], ['-O0', '-g'], [], [], {}),
}
FLAVOURS['asan'][0].remove('-fno-automatic-placeholder')


class BuildError(Exception):
    pass


def sources():
    pats = ('*.py', '*.f90', '*.pyf', '*.f', '*.c', '*.h', '*.inc', '*.f95', '*.f03', '*.f08', '*.F90')
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, 'igakit', p))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in sources() + [os.path.join(REPO, 'meson.build')]:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        if os.path.exists(f):
            h.update(open(f, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def _libpath(name):
    p = subprocess.run(['gcc', '-print-file-name=' + name], stdout=subprocess.PIPE,
                       text=True).stdout.strip()
    return os.path.realpath(p)


def build(flavour='plain'):
    """Returns (package root directory, extra environment)."""
    ff, cf, lf, preload, env = FLAVOURS[flavour]
    key = hashlib.sha256((tree_hash() + repr((ff, cf, lf)) + '2').encode()).hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, '%s-%s' % (flavour, key))
    env = dict(env)
    if preload:
        env['LD_PRELOAD'] = ' '.join(_libpath(p) for p in preload)
    with open(os.path.join(CACHE, '.lock-' + flavour), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'OK')):
            return dest, env
        if os.path.exists(dest):
            shutil.rmtree(dest)
        # keep the cache small: drop older builds of this flavour
        olds = sorted((d for d in glob.glob(os.path.join(CACHE, flavour + '-*'))),
                      key=os.path.getmtime)
        for d in olds[:-1]:
            shutil.rmtree(d, ignore_errors=True)
        pkg = os.path.join(dest, 'igakit')
        os.makedirs(pkg)
        tmp = os.path.join(dest, 'obj')
        os.makedirs(tmp)
        try:
            _build(pkg, tmp, ff, cf, lf)
        except BaseException:
            shutil.rmtree(dest, ignore_errors=True)
            raise
        open(os.path.join(dest, 'OK'), 'w').close()
    return dest, env


def _build(pkg, tmp, ff, cf, lf):
    f90, pyf = [], None
    for f in sources():
        if f.endswith('.py'):
            shutil.copy(f, pkg)
        elif f.endswith('.pyf'):
            pyf = f
        elif f.endswith(('.f90', '.f')):
            f90.append(f)
    if pyf is None or not f90:
        raise BuildError('no igalib.pyf or Fortran source in %s/igakit' % REPO)
    inc = subprocess.run(
        [PY, '-S', '-c', 'import sys; sys.path.insert(0,%r)\nimport numpy, numpy.f2py, os\n'
         'print(numpy.get_include()); print(os.path.join(os.path.dirname(numpy.f2py.__file__),"src"))' % SITE],
        stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    npinc, f2pysrc = inc
    pyinc = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
                           stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    # the library proper first (its .mod files are needed by the wrappers)
    fproc = []
    objs = []
    for i, f in enumerate(f90):
        src = os.path.join(tmp, os.path.basename(f))
        shutil.copy(f, src)
        o = os.path.join(tmp, 'lib%d.o' % i)
        objs.append(o)
        fproc.append(subprocess.Popen(['gfortran', '-fPIC', '-ffree-line-length-none'] + ff +
                                      ['-J', tmp, '-c', src, '-o', o], cwd=tmp,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    g = os.path.join(tmp, 'gen')
    os.makedirs(g)
    _run([PY, '-S', '-c', 'import sys; sys.path.insert(0,%r); sys.argv=["f2py","--build-dir",%r,%r]\n'
          'import numpy.f2py; numpy.f2py.main()' % (SITE, g, pyf)], tmp)
    cproc = []
    incs = ['-I', pyinc, '-I', npinc, '-I', f2pysrc]
    for name, src in [('mod.o', os.path.join(g, 'igalibmodule.c')),
                      ('fo.o', os.path.join(f2pysrc, 'fortranobject.c'))]:
        o = os.path.join(tmp, name)
        objs.append(o)
        cproc.append(subprocess.Popen(['gcc', '-fPIC', '-w'] + cf + incs + ['-c', src, '-o', o],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in fproc:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError(out[-4000:])
    for w in glob.glob(os.path.join(g, '*f2pywrappers*')):
        o = os.path.join(tmp, os.path.basename(w) + '.o')
        objs.append(o)
        fl = [x for x in ff if not x.startswith('-Wa')]
        _run(['gfortran', '-fPIC', '-ffree-line-length-none'] + fl + ['-I', tmp, '-J', tmp, '-c', w, '-o', o], tmp)
    for p in cproc:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError(out[-4000:])
    so = os.path.join(pkg, 'igalib.cpython-312-x86_64-linux-gnu.so')
    _run(['gfortran', '-shared', '-o', so] + objs + lf, tmp)


BOOT = '''import sys
sys.dont_write_bytecode = True
sys.path[:0] = [%r, %r, %r]
'''


def python_cmd(dest, script, *args):
    """argv running `script` with the built package and without .pth hooks."""
    code = (BOOT % (dest, HERE, SITE)) + (
        'sys.argv = %r\nimport runpy\nrunpy.run_path(%r, run_name="__main__")'
        % ([script] + list(args), script))
    return [PY, '-I', '-S', '-c', code]


def python_env(extra=None):
    env = dict(PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', HOME='/tmp',
               MPLBACKEND='agg', MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR', '/opt/mplconfig'),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    for k in ('VERIF_SEED', 'VERIF_TIER'):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(extra or {})
    return env


if __name__ == '__main__':
    import time
    for f in sys.argv[1:] or ['plain']:
        t = time.time()
        print(f, build(f), '%.1fs' % (time.time() - t))
