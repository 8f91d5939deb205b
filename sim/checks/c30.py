"""C30: interrupts and failures reach the caller as they are."""
import sys
import warnings

from sim import inject, io, metrics, omp, ops, streams
from sim.core import Check, Violation

FAILING = ['ERR', 'ERR', 'ERR', 'SIGINT', 'SIGINT_EINTR']


class Expired(Exception):
    """raised by the user, from a signal handler or a callback"""


class Abandoned(BaseException):
    """likewise"""


def raised(kind):
    return {'KeyboardInterrupt': lambda: KeyboardInterrupt('of the user'), 'MemoryError': lambda: MemoryError('of the user'), 'Expired': lambda: Expired('of the user'),
            'Abandoned': lambda: Abandoned('of the user'), 'OSError': lambda: OSError(28, 'of the user'), 'ValueError': lambda: ValueError('of the user'),
            'UnicodeError': lambda: UnicodeDecodeError('utf8', b'x', 0, 1, 'of the user'), 'SystemExit': lambda: SystemExit(3), 'KeyError': lambda: KeyError('of the user'),
            'TypeError': lambda: TypeError('of the user'), 'AttributeError': lambda: AttributeError('of the user'), 'NameError': lambda: NameError('of the user'),
            'RuntimeError': lambda: RuntimeError('of the user'), 'AssertionError': lambda: AssertionError('of the user'), 'EOFError': lambda: EOFError('of the user'),
            'ImportError': lambda: ImportError('of the user'), 'ZeroDivisionError': lambda: ZeroDivisionError('of the user'), 'IndexError': lambda: IndexError('of the user'),
            'StopIteration': lambda: StopIteration('of the user')}[kind]()


# what a callback of the user may raise (StopIteration has a meaning of its own in generators)
CALLBACK = ('KeyboardInterrupt', 'MemoryError', 'Expired', 'Expired', 'Abandoned', 'OSError', 'ValueError', 'UnicodeError', 'SystemExit', 'KeyError', 'TypeError', 'AttributeError',
            'NameError', 'RuntimeError', 'AssertionError', 'EOFError', 'ImportError', 'ZeroDivisionError', 'IndexError')
SIGNALLED = ('KeyboardInterrupt', 'KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'Expired', 'Expired', 'Abandoned')


class C30(Check):
    id = 'C30'
    runs = 6000
    quick_seconds = 120
    lists = ('faults',)
    ints = ops.INTS
    real = ['rankeval (datasets, models, metrics, scoring, analyses, export)', 'NumPy, xarray, gzip, bz2, expat']
    stub = ['libc I/O calls on the scratch folder (fault layer)', 'streams, metrics and learners of the user', 'signals, lack of memory and failing allocations (Python, NumPy, operator new)']
    measure = 'distinct operations by kind and place of the failure'
    level_rule = ('Each seed draws an operation of the library and one failure; if it struck, the exception which the caller gets must be the very one, and not another one, '
                  'nor a normal return; the interpreter must not have reported and dropped any exception on the way.')
    assumptions = ['two failures in one operation: the caller gets one of them', 'system calls: errors are compared by class and number']

    def preload(self):
        ops.preload()
        omp.lib()

    def generate(self, rng, tier):
        p = ops.draw(rng, ops.OPS + ('plot', 'plot'))
        p['what_plot'] = rng.choice(ops.PLOTS)
        op = p['op']
        if op == 'plot':        # of numbers
            p['metrics'] = metrics.draw_some(rng, 2, ('NDCG', 'DCG', 'MSE', 'ERR', 'MAP', 'MRR'))
        modes = ['signal', 'signal', 'signal', 'alloc']
        if op in ops.FILES:
            modes += ['io', 'io', 'io', 'io']
        if op in ('load', 'dump'):
            modes += ['stream', 'stream', 'stream', 'new', 'new', 'nomem']
        if op in ops.CALLBACKS:
            modes += ['callback', 'callback', 'callback']
        m = p['mode'] = rng.choice(modes)
        p['at'] = round(rng.random(), 5)
        p['opcodes'] = rng.random() < .5
        p['what'] = rng.choice(SIGNALLED if m == 'signal' else CALLBACK)
        if m == 'io':
            p['faults'] = [io.pick(rng, FAILING) for _ in range(rng.choice([1, 1, 1, 2]))]
            if op in ('load', 'dump') and rng.random() < .7:
                p['target'] = rng.choice(['.txt', '.gz', '.bz2'])
        elif m == 'stream':
            p['target'] = 'reader'
        elif m == 'nomem':
            p['nth'] = int(2 ** (rng.random() * 8)) - 1
        elif m == 'callback' and op == 'importance':
            p['how'] = 1
        return p

    def execute(self, p, ctx):
        warnings.simplefilter('ignore')
        op, m = p['op'], p['mode']
        job = ops.Operation(p, ctx)
        objects, dropped = [], []
        sys.unraisablehook = lambda u: dropped.append('%s: %s' % (type(u.exc_value).__name__, u.exc_value))

        def fail(*a):
            e = raised(p['what'])
            objects.append(e)
            ctx.fault(m.upper() + '_' + p['what'])
            raise e
        calls = {'n': 0, 'at': None}

        def count():
            n = calls['n']
            calls['n'] += 1
            if n == calls['at']:
                fail()
        if m == 'stream':
            streams.ERRORS['user'] = lambda: objects.append(raised(p['what'])) or objects[-1]
            job.stream_faults = {int(p['at'] * job.lines()): 'user'}
        elif m == 'callback':
            def make(spec):
                e = metrics.make(spec)
                f = e.eval_per_query

                def eval_per_query(y, y_pred):
                    count()
                    return f(y, y_pred)
                e.eval_per_query = eval_per_query
                return e
            job.make_metric = make

            def learner(a, b, c, d):
                count()
                return d[:, 0] * 2
            job.learner = learner

        elif m == 'nomem':
            import _testcapi
            import rankeval.dataset.svmlight_format as F

            def starved(f):
                def g(*a):
                    _testcapi.set_nomemory(p['nth'], p['nth'] + 1)
                    try:
                        return f(*a)
                    finally:
                        _testcapi.remove_mem_hooks()
                return g
            for k in ('_load_svmlight_file', '_dump_svmlight_file'):
                if hasattr(F, k):       # just the native code: lack of memory within NumPy has other consequences
                    setattr(F, k, starved(getattr(F, k)))

        omp.start({'threads': 1, 'policy': 'serial', 'p': .001, 'shrink': False, 'oseed': 1})
        try:
            # the places are counted by one healthy execution
            g, n, at = job.prepare(), 0, None
            injector = {'signal': lambda at: inject.At(at, lambda *a: fail_object(), p['opcodes']), 'alloc': inject.Alloc}.get(m)

            def fail_object():
                objects.append(raised(p['what']))
                return objects[-1]
            job_faults = []
            if m == 'io':
                io.arm([])
                job.work(g)
                io.disarm()
                job_faults = [f for f in (io.resolve(f, io.log()) for f in p['faults']) if f]
            elif m == 'new':
                io.alloc(True, -1)
                job.work(g)
                n = io.alloc_count()
                io.alloc(False)
            elif m in ('signal', 'alloc'):
                c = injector(None)
                with c:
                    job.work(g)
                n = c.n
            elif m == 'callback':
                job.work(g)
                n = calls['n']
            at = int(p['at'] * n) if n else None
            g = job.prepare()
            calls['n'], calls['at'] = 0, at if m == 'callback' else None
            err, late, fired_new = None, None, False
            inj = injector(at) if injector and at is not None else None
            try:
                io.arm(job_faults)
                if m == 'new' and at is not None:
                    io.alloc(True, at)
                try:
                    if inj is not None:
                        with inj:
                            job.work(g)
                    else:
                        job.work(g)
                except BaseException as e:
                    err = e
                finally:
                    if m == 'new':
                        fired_new = at is not None and bool(io.alloc_fired())
                        io.alloc(False)
                    io.disarm()
            except KeyboardInterrupt as e:
                late = e        # it arrived when the operation was already over
                io.disarm()
            sys.settrace(None)
        finally:
            io.disarm()
            omp.stop(ctx, schedule=False)
        name = type(err).__name__ if err is not None else 'nothing'
        events = [e for e in io.log() if e.kind != 'NONE'] if m == 'io' else []
        ctx.io(io.log())
        ctx.log(op, m, name, getattr(inj, 'where', None))
        where = '%s (%s, %s)' % (op, p['what_plot'] if op == 'plot' else p['kind'] if op == 'analysis' else p['format'] if op == 'model' else job.target, getattr(inj, 'where', None) or m)
        ctx.state(where, name)
        ctx.nontrivial = True
        expected = None
        if m in ('signal', 'stream', 'callback'):
            if m == 'signal' and inj is not None and inj.fired:
                ctx.fault('SIGNAL_' + p['what'])
            if m == 'stream' and objects:
                ctx.fault('STREAM_' + p['what'])
            # pandas has its own ways with what hashing and comparing its labels raises
            theirs = op not in ('hash', 'node') and (getattr(inj, 'where', None) or '').startswith('__')
            if objects and err is not objects[0] and not theirs:
                raise Violation('altered', '%s: %r was raised, the caller got %r' % (where, objects[0], err))
            expected = bool(objects)
        elif m in ('alloc', 'new'):
            expected = fired_new if m == 'new' else inj is not None and inj.fired
            if expected:
                ctx.fault(m.upper())
                if not isinstance(err, MemoryError):
                    raise Violation('altered', '%s: an allocation failed, the caller got %r' % (where, err))
        elif m == 'nomem':
            expected = isinstance(err, MemoryError)
            if expected:
                ctx.fault('NOMEM')
            elif err is not None:
                raise Violation('altered', '%s: an allocation failed, the caller got %r' % (where, err))
        elif m == 'io':
            interrupts = [e for e in events if 'SIGINT' in e.kind]
            errors = {f[2] for f in job_faults if f[1] == 'ERR'} if any(e.kind == 'ERR' for e in events) else set()
            expected = bool(events)
            ok = [isinstance(x, KeyboardInterrupt) for x in (err, late)] if interrupts else []
            if errors:
                ok.append(isinstance(err, OSError) and err.errno in errors)
            if events and not any(ok):
                raise Violation('altered', '%s: %s, the caller got %r' % (where, ', '.join('%s at %s' % (e.kind, e.op) for e in events), err))
        if err is not None and not expected:
            raise err
        if dropped and not expected:
            raise Violation('dropped', '%s: the interpreter dropped %s' % (where, dropped[0]))


CHECK = C30()
