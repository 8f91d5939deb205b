"""C29: operations release what they take, and leave the process as they found it."""
import builtins
import ctypes
import gc
import io as pyio
import os
import random
import signal
import socket
import sys
import threading
import warnings
import weakref

import numpy as np

from sim import inject, io, omp, ops, streams
from sim.core import Check, Violation

REPS, WARM = 12, 4
STAGES = (30, 90, 200)
# per repetition: a single block for good, which noise cannot bring about over hundreds of repetitions
LEAST = ((.9, 'blocks of memory'), (48, 'bytes of memory'))


class MI(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


_c = ctypes.CDLL(None)
_m = ctypes.CDLL('libm.so.6')
_c.mallinfo2.restype = MI
_c.setlocale.restype = ctypes.c_char_p


def heap():
    m = _c.mallinfo2()
    return m.uordblks + m.hblkhd


def process(scratch):
    """what an operation must leave as it was"""
    import locale
    import logging
    import resource
    u = os.umask(0)
    os.umask(u)
    m = sys.modules.get('matplotlib')
    return {
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'umask': u, 'error handling of NumPy': (np.geterr(), np.geterrcall(), np.getbufsize()),
        'print options of NumPy': sorted((k, str(v)) for k, v in np.get_printoptions().items()),
        'filters of warnings': [(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters], 'display of warnings': (id(warnings.showwarning), id(warnings.formatwarning)),
        'time-out of sockets': socket.getdefaulttimeout(), 'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'signal handlers': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGCHLD, signal.SIGFPE)],
        'timers': signal.getitimer(signal.ITIMER_REAL), 'locale': (_c.setlocale(6, None), locale.setlocale(locale.LC_ALL)), 'threads': threading.active_count(),
        'hooks': (id(sys.excepthook), id(sys.stdout), id(sys.stderr), id(sys.stdin), id(builtins.open), id(builtins.print), id(sys.displayhook), id(threading.excepthook)),
        'path of modules': list(sys.path), 'garbage collector': (gc.isenabled(), gc.get_threshold(), len(gc.callbacks)),
        'limits': [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU)],
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable), 'generator of Python': hash(random.getstate()),
        'parameters of matplotlib': {k: str(v) for k, v in m.rcParams.items()} if m else None, 'rounding': _m.fegetround(),
        'threads of the system': len(os.listdir('/proc/self/task')), 'temporary files': sorted(os.listdir(os.environ['TMPDIR'])) if os.environ.get('TMPDIR') else None,
    }


class C29(Check):
    id = 'C29'
    runs = 3000
    quick_seconds = 120
    lists = ('faults',)
    ints = ops.INTS
    real = ['rankeval (datasets, models, metrics, scoring, analyses, export)', 'NumPy, xarray', 'the allocators of CPython and of the C library']
    stub = ['libc I/O calls on the scratch folder (fault layer)', 'streams of the caller', 'user interrupts, lack of memory and failing allocations (Python, NumPy, operator new)', 'learners of the user']
    measure = 'distinct operations by outcome and place of the fault'
    level_rule = ('Each seed draws an operation of the library and a fault, which are repeated %d times at the very same place; afterwards what was given and what was '
                  'returned must be free, memory must have stopped growing, and the state of the process must be the same.') % REPS
    assumptions = ['the results and the exceptions of an operation are dropped', 'a metric or a model may keep datasets only as long as it lives itself, or until clear_cache',
                   'growth counts when it goes on over %d repetitions, at a steady pace, by a block or %d bytes each' % (STAGES[-1], LEAST[1][0])]

    def preload(self):
        ops.preload()
        omp.lib()

    def generate(self, rng, tier):
        p = ops.draw(rng)
        p['keep'] = rng.random() < .5
        op = p['op']
        modes = ['none', 'inject', 'inject', 'inject']
        if op in ops.FILES:
            modes += ['io', 'io', 'damage', 'damage']
        if op in ('load', 'dump'):
            modes += ['stream', 'stream', 'new', 'new']
        m = p['mode'] = rng.choice(modes)
        p['at'] = round(rng.random(), 5)
        if m == 'inject':
            p['fault'] = inject.draw(rng)
        elif m == 'io':
            p['faults'] = [io.pick(rng, ops.FAILING) for _ in range(rng.randrange(1, 3))]
        elif m == 'stream':
            p['target'] = 'reader'
            p['error'] = rng.choice(list(streams.ERRORS))
        return p

    def execute(self, p, ctx):
        from rankeval.dataset.dataset import Dataset
        from rankeval.model import RTEnsemble
        warnings.simplefilter('ignore')
        op, how = p['op'], p['how']
        tmp = os.path.join(ctx.scratch, 'tmp')
        os.mkdir(tmp)
        os.environ['TMPDIR'] = tmp
        os.chdir(ctx.scratch)
        # settings of the caller, other than the default ones
        np.seterr(divide='warn', over=('warn', 'print')[how % 2], under='warn', invalid='warn')
        np.set_printoptions(precision=5 + how)
        os.umask(0o27)
        job = ops.Operation(p, ctx, p['at'] if p['mode'] == 'damage' else None)
        folder, path, tg, drawing = job.folder, job.path, job.target, job.drawing
        if how == 5:
            def learner(a, b, c, d):
                raise ValueError('of the learner')
            job.learner = learner
        # where the fault goes
        at = None
        if p['mode'] == 'stream':
            job.stream_faults = {int(p['at'] * job.lines()): p['error']}
        fs = []
        if p['mode'] == 'inject':
            spec = p['fault']
            exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}.get(spec['kind'])
            mk = lambda k: inject.Alloc(k) if spec['kind'] == 'alloc' else inject.At(k, exc, spec['opcodes'])
        kept = {}
        if p['keep'] and op in ops.WITH_MODEL:
            # the model goes on living, the datasets do not
            kept['model'] = job.model()
        keeps = p['cache'] and op == 'analysis'
        # the places are counted by one healthy execution
        outcome = [None]
        omp.start({'threads': 1, 'policy': 'serial', 'p': .001, 'shrink': False, 'oseed': 1})

        def once(r, counting=False):
            """one repetition: [places counted], and what is still alive afterwards"""
            kr = {k: sys.getrefcount(o) for k, o in kept.items()}
            g = job.prepare(kept)
            watch = []

            def follow(name, o, deep=0):
                try:
                    watch.append((name, weakref.ref(o)))
                except TypeError:
                    pass
                if isinstance(o, Dataset):
                    follow(name + '.X', o.X), follow(name + '.y', o.y)
                elif isinstance(o, RTEnsemble):
                    follow(name + '.trees_nodes_value', o.trees_nodes_value)
                elif isinstance(o, (list, tuple)) and deep < 3:
                    for i, x in enumerate(o):
                        follow('%s[%d]' % (name, i), x, deep + 1)
            for k, o in g.items():
                if k not in kept:
                    follow(k, o)
            o = None
            np.random.seed(p['seed'] & 0xffffff)
            rs = np.random.get_state()
            st = process(ctx.scratch)
            inj = None
            if p['mode'] == 'inject' and at is not None or counting and p['mode'] == 'inject':
                inj = mk(None if counting else at)
            res, name, n_new, f_new = None, 'ok', 0, False
            try:        # a second interrupt may be pending when the first one arrives here
                io.arm([] if counting else fs)
                if p['mode'] == 'new':
                    io.alloc(True, -1 if counting or at is None else at)
                try:
                    if inj is not None:
                        with inj:
                            res = job.work(g)
                    else:
                        res = job.work(g)
                except BaseException as e:
                    name = type(e).__name__
                    if name in ('SystemExit', 'GeneratorExit', 'Violation'):
                        raise
                    if (counting or p['mode'] == 'none') and not (op == 'variance' and how == 5):
                        raise       # it was healthy
                    e.__traceback__ = None
                    e.__context__ = None
                    del e
                finally:
                    if p['mode'] == 'new':
                        n_new, f_new = io.alloc_count(), io.alloc_fired()
                        io.alloc(False)
                    io.disarm()
            except KeyboardInterrupt:
                res, name = None, 'KeyboardInterrupt'
                io.disarm()
            sys.settrace(None)
            n = None
            if counting:
                n = inj.n if inj is not None else (n_new if p['mode'] == 'new' else io.log())
            elif r == 1:
                ctx.io(io.log())
                if inj is not None and inj.fired:
                    ctx.fault('ALLOC' if spec['kind'] == 'alloc' else 'RAISED_' + spec['kind'], REPS)
                if p['mode'] == 'new' and f_new:
                    ctx.fault('OPERATOR_NEW', REPS)
                if 'stream' in g and g['stream'].__class__ is not pyio.BytesIO and g['stream'].fired:
                    ctx.fault(g['stream'].fired[0], REPS)
                ctx.log(op, name, repr(getattr(inj, 'where', None)))
                ctx.state(op, p['kind'] if op == 'analysis' else tg, name, getattr(inj, 'where', None) or p['mode'])
            follow('result', res)
            now = process(ctx.scratch)
            if name != 'ok':
                # a temporary file may be left when its removal was disturbed
                st.pop('temporary files'), now.pop('temporary files')
            for k in now:
                if st[k] != now[k]:
                    raise Violation('state', '%s (%s) changed the %s: %s' % (op, name, k, differ(st[k], now[k])))
            if not drawing:
                a = np.random.get_state()
                if not (a[0] == rs[0] and a[2:] == rs[2:] and np.array_equal(a[1], rs[1])):
                    raise Violation('state', '%s (%s) used the global random generator' % (op, name))
            if name == 'ok' and set(os.listdir(folder)) - {os.path.basename(path)}:
                raise Violation('files', '%s left other files: %r' % (op, os.listdir(folder)))
            res = inj = None
            g.clear()
            # what was kept in purpose
            if keeps:
                for o in kept.values():
                    o.clear_cache()
            gc.collect()
            alive = [(k, w()) for k, w in watch if w() is not None]
            if alive and not counting:
                k, o = alive[0]
                holders = [type(h).__name__ for h in gc.get_referrers(o) if h is not alive and type(h).__name__ not in ('frame', 'tuple', 'list_iterator')]
                raise Violation('alive', '%s (%s): %s is still alive after everything was dropped (held by %s)' % (op, name, k, ', '.join(sorted(set(holders))[:3]) or 'a lost reference'))
            alive = None
            for k, o in kept.items():
                if sys.getrefcount(o) != kr[k]:
                    raise Violation('references', '%s (%s): the references to the %s went from %d to %d' % (op, name, k, kr[k], sys.getrefcount(o)))
            outcome[0] = name
            return n

        try:
            if p['mode'] in ('inject', 'io', 'new'):
                n = once(0, True)
                if p['mode'] == 'io':
                    fs = [f for f in (io.resolve(f, n) for f in p['faults']) if f]
                else:
                    at = int(p['at'] * n) if n else None
            n_marks, marks = 0, np.zeros((STAGES[-1], 2), dtype=np.int64)      # not counted by Python one by one

            def repeat(first, last):
                for r in range(first, last):
                    once(r)
                    sys._clear_type_cache()     # it holds strings of its own
                    gc.collect()
                    marks[r] = sys.getallocatedblocks(), heap()
                    ctx.steps += 1
            repeat(0, REPS)
            n_marks = REPS
            # what grows has to go on growing: single repetitions vary by caches and by places in memory
            numpys = p['mode'] == 'inject' and spec['kind'] == 'alloc'      # what NumPy itself leaves behind when it runs out of memory
            for total in STAGES if not numpys else ():
                what = grows(marks[WARM - 1:n_marks])
                if what is None:
                    break
                repeat(n_marks, total)
                n_marks = total
            else:
                what = None if numpys else grows(marks[WARM - 1:n_marks])
        finally:
            io.disarm()
            omp.stop(ctx, schedule=False)
        ctx.extra['prolonged'] = ctx.extra.get('prolonged', 0) + int(n_marks > REPS)
        if what:
            raise Violation('grows', '%s (%s): every repetition leaves %s' % (op, outcome[0], what))
        ctx.nontrivial = True


def grows(marks):
    """steady growth; what only fills a list of spares, or comes once, is none"""
    for k, (least, name) in enumerate(LEAST):
        v = marks[:, k].tolist()
        n = len(v) - 1
        q = [(v[(i + 1) * n // 4] - v[i * n // 4]) / (n // 4) for i in range(4)]
        if q[3] >= least and (n < 60 or min(q) >= least and max(q) < 2 * min(q) + 1):
            return 'about %d more %s' % (round(q[3]), name)


def differ(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return '; '.join('%s: %r -> %r' % (k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k))[:200]
    return ('%r -> %r' % (a, b))[:300]


CHECK = C29()
