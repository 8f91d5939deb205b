"""Exceptions raised at a chosen Python instruction of the library (interrupt of the user, lack of memory)."""
import os, sys


def libdir():
    import rankeval
    return os.path.dirname(os.path.abspath(rankeval.__file__)) + os.sep


class At:
    """counts the trace events in frames of the library and raises at the k-th one"""

    def __init__(self, at=None, exc=KeyboardInterrupt, opcodes=False, prefix=None):
        self.at, self.exc, self.opcodes = at, exc, opcodes
        self.n, self.fired, self.where = 0, False, None
        self.prefix = prefix or libdir()
        self.known = {}

    def _global(self, frame, event, arg):
        code = frame.f_code
        ok = self.known.get(code)
        if ok is None:
            ok = self.known[code] = code.co_filename.startswith(self.prefix)
        if not ok:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self._count(frame)
        return self._local

    def _local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self._count(frame)
        return self._local

    def _count(self, frame):
        n = self.n
        self.n += 1
        if n == self.at:
            self.fired = True
            self.where = '%s:%d' % (frame.f_code.co_name, frame.f_lineno)
            sys.settrace(None)
            raise self.exc('injected')

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Alloc:
    """the k-th allocation of an array through NumPy fails (k None: only counts)"""
    NAMES = ('zeros', 'empty', 'full', 'ones', 'zeros_like', 'empty_like', 'asarray', 'unique', 'append', 'copy', 'arange')

    def __init__(self, at=None):
        self.at, self.n, self.fired = at, 0, False
        self.exc = MemoryError

    def __enter__(self):
        import numpy
        self.saved = {k: getattr(numpy, k) for k in self.NAMES}

        def wrap(f):
            def g(*a, **kw):
                n = self.n
                self.n += 1
                if n == self.at:
                    self.fired = True
                    raise MemoryError('injected')
                return f(*a, **kw)
            return g
        for k, f in self.saved.items():
            setattr(numpy, k, wrap(f))
        return self

    def __exit__(self, *a):
        import numpy
        for k, f in self.saved.items():
            setattr(numpy, k, f)
        return False


def draw(rng):
    """an injection drawn by a plan: kind, place (fraction of the points of an undisturbed execution), granularity"""
    return {'kind': rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'alloc']), 'at': round(rng.random(), 5),
            'opcodes': rng.random() < .5}


def points(c, fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                with c:
                    fn()
            except BaseException:
                pass
            os.write(w, b'%d' % c.n)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return int(b or 0)


def run(spec, fn, ctx=None, prefix=None):
    """executes fn disturbed as described, after counting its points in a forked process, which leaves no trace here.
    Returns (result, exception or None, fired)"""
    if spec['kind'] == 'alloc':
        mk = lambda k: Alloc(k)
    else:
        exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[spec['kind']]
        mk = lambda k: At(k, exc, spec['opcodes'], prefix)
    n = points(mk(None), fn)
    i = mk(int(spec['at'] * n) if n else None)
    err = r = None
    try:
        with i:
            r = fn()
    except BaseException as e:
        err = e
    if err is not None and not i.fired:
        raise err
    if i.fired and ctx is not None:
        ctx.fault('ALLOC' if spec['kind'] == 'alloc' else 'RAISED_' + spec['kind'])
        ctx.log('raised', spec['kind'], int(spec['at'] * n), getattr(i, 'where', None))
        ctx.state('raised', spec['kind'], getattr(i, 'where', None))
    return r, err, i.fired
