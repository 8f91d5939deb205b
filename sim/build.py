"""Builds what the checks need from the working tree of /repo, out of the tree.

The native extensions are built by the setup.py of the repository, in a copy of its sources, with a compiler driver
that swaps the OpenMP runtime for the simulated one. The result is kept under /verif/.build, by hash of the sources.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
LOCALES = (('de_DE', 'UTF-8'), ('de_DE', 'ISO-8859-1'), ('tr_TR', 'UTF-8'), ('zh_CN', 'GBK'))
SKIP_DIRS = {'.git', 'build', 'dist', '__pycache__', 'notebooks', 'doc', 'test', '.eggs'}
KEEP_EXT = ('.py', '.pyx', '.pxd', '.pxi', '.c', '.cc', '.cpp', '.h', '.hpp', '.in', '.md')


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not x.endswith('.egg-info'))
        for f in sorted(files):
            p = os.path.join(d, f)
            base, ext = os.path.splitext(p)
            if ext in ('.c', '.cpp') and os.path.exists(base + '.pyx'):
                continue  # generated by cython
            if ext in KEEP_EXT or f == 'VERSION':
                out.append(os.path.relpath(p, REPO))
    return out


def native_relevant(p):
    return p.endswith(('.pyx', '.pxd', '.pxi', '.c', '.cc', '.cpp', '.h', '.hpp')) or p == 'setup.py'


def digest(paths):
    h = hashlib.sha256()
    for base, rel in paths:
        h.update(rel.encode() + b'\0')
        with open(os.path.join(base, rel), 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def build(verbose=False):
    """Returns the folder holding libsimio.so, libsimomp.so and lib/ (the extensions)."""
    srcs = sources()
    mine = ['native/' + f for f in ('simio.cpp', 'simomp.cpp', 'ccwrap')]
    key = digest([(REPO, s) for s in srcs if native_relevant(s)] + [(VERIF, m) for m in mine + ['sim/build.py']])
    home = os.path.join(VERIF, '.build')
    os.makedirs(home, exist_ok=True)
    out = os.path.join(home, key)
    with open(os.path.join(home, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'ok')):
            os.utime(os.path.join(out, 'ok'))
            return out
        shutil.rmtree(out, ignore_errors=True)
        old = sorted((d for d in os.listdir(home) if os.path.isdir(os.path.join(home, d))),
                     key=lambda d: os.path.getmtime(os.path.join(home, d)))
        for d in old[:-5]:
            shutil.rmtree(os.path.join(home, d), ignore_errors=True)
        os.makedirs(out)
        nat = os.path.join(VERIF, 'native')
        ps = [subprocess.Popen(['g++', '-O1', '-g0', '-w', '-std=c++17', '-fPIC', '-shared', os.path.join(nat, s), '-o',
                                os.path.join(out, o), '-ldl', '-lpthread'], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
              for s, o in (('simio.cpp', 'libsimio.so'), ('simomp.cpp', 'libsimomp.so'))]
        os.makedirs(os.path.join(out, 'locale'))
        # where it does not work, C31 goes without
        ls = [subprocess.Popen(['localedef', '-i', name, '-f', charset, '--no-archive', os.path.join(out, 'locale', name + '.' + charset)],
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
              for name, charset in (LOCALES if shutil.which('localedef') else ())]
        src = os.path.join(out, 'src')
        for s in srcs:
            d = os.path.join(src, s)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, s), d)
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError(o[-4000:])
        env = dict(os.environ, SIM_LIBDIR=out, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
        env.pop('LD_PRELOAD', None)
        wrap = os.path.join(nat, 'ccwrap')
        cflags = (sysconfig.get_config_var('CFLAGS') or '').replace('-g ', ' ')
        env.update(CC='%s gcc' % wrap, CXX='%s g++' % wrap, LDSHARED='%s gcc -shared' % wrap,
                   LDCXXSHARED='%s g++ -shared' % wrap, CFLAGS='-g0', CXXFLAGS='-g0')
        env.pop('PYTHONPATH', None)
        run([sys.executable, 'setup.py', '-q', 'build_ext', '-j', '4', '--build-lib', os.path.join(out, 'lib'),
             '--build-temp', os.path.join(out, 'tmp')], cwd=src, env=env)
        shutil.rmtree(src)
        shutil.rmtree(os.path.join(out, 'tmp'), ignore_errors=True)
        for p in ls:
            p.wait()
        open(os.path.join(out, 'ok'), 'w').close()
    return out


def extensions(out):
    """name of the module -> shared object"""
    r = {}
    lib = os.path.join(out, 'lib')
    for d, _, files in os.walk(lib):
        for f in files:
            if '.so' in f:
                name = os.path.relpath(os.path.join(d, f.split('.')[0]), lib).replace('/', '.')
                r[name] = os.path.join(d, f)
    return r


if __name__ == '__main__':
    import time
    t = time.time()
    try:
        o = build()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(o, sorted(extensions(o)), '%.1fs' % (time.time() - t))
