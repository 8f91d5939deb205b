"""C02: a dump that returns has stored the whole dataset, and it loads back unchanged."""
import io as pyio
import os
import random

import numpy as np

from sim import data, io
from sim.core import Check, Invalid, Violation

try:
    import _testcapi
except ImportError:
    _testcapi = None

LOSSLESS = ['SHORT', 'EINTR']
FAILING = ['ERR', 'ERR', 'STICKY', 'SIGINT', 'SIGINT_EINTR']
CRASH = ['CRASH_BEFORE', 'CRASH_AFTER', 'TORN', 'TORN']


class Sink(pyio.RawIOBase):
    """where a stream of the caller ends"""

    def __init__(self, rng, faults):
        self.b, self.rng, self.faults, self.n, self.fired = bytearray(), rng, faults, 0, []

    def writable(self):
        return True

    def write(self, b):
        f = self.faults.get(self.n)
        self.n += 1
        b = bytes(b)
        if f == 'error':
            self.fired.append('STREAM_ERROR')
            raise OSError(28, 'injected')
        if f == 'interrupt':
            self.fired.append('STREAM_INTERRUPT')
            raise KeyboardInterrupt
        if f == 'short':
            self.fired.append('STREAM_SHORT')
            b = b[:max(1, self.rng.randrange(1, 60))]
        self.b += b
        return len(b)


class Text:
    """an object with just write()"""

    def __init__(self, faults):
        self.s, self.faults, self.n, self.fired = [], faults, 0, []

    def write(self, t):
        f = self.faults.get(self.n)
        self.n += 1
        if f in ('error', 'interrupt', 'value'):
            self.fired.append('STREAM_' + f.upper())
            raise {'error': OSError(28, 'injected'), 'interrupt': KeyboardInterrupt(), 'value': ValueError('injected')}[f]
        self.s.append(t)
        return len(t)


class C02(Check):
    id = 'C02'
    runs = 6000
    lists = ('faults', 'sfaults')
    ints = {'rows': 1, 'cols': 1, 'nq': 1}
    real = ['rankeval.dataset (Dataset.dump, svmlight_format)', '_svmlight_format.cpp (built from the tree)', 'CPython io, gzip, bz2',
            'kernel file system below the fault layer']
    stub = ['libc I/O calls on the scratch folder (fault layer)', 'operator new (failing allocations)', 'stream objects of the caller',
            'process kill (exit of a forked process at an operation: what the kernel already accepted survives)']
    level_rule = ('Each seed draws a dataset, a target (path, .gz, .bz2, descriptor, text stream), an API and faults or a kill placed at '
                  'operations of a fault-free dump.')
    assumptions = ['a kill is the death of the process, not of the machine: the kernel keeps what was written',
                   'a dump to a stream of the caller is complete once the caller flushed the stream', 'values are finite']

    def preload(self):
        import rankeval.dataset.dataset, rankeval.dataset.svmlight_format, gzip, bz2  # noqa

    def generate(self, rng, tier):
        big = rng.random() < (.25 if tier == 'quick' else .4)
        p = {'seed': rng.randrange(1 << 30), 'rows': rng.randrange(40, 300) if big else rng.randrange(1, 25),
             'cols': rng.randrange(8, 30) if big else rng.randrange(1, 12), 'nq': rng.randrange(1, 12),
             'kind': rng.choice(['wild', 'small', 'unit', 'wild']), 'target': rng.choice(['.txt', '.txt', '.gz', '.bz2', 'fd', 'text', 'stringio', 'wrapper', 'fileobj']),
             'api': rng.choice(['Dataset', 'Dataset', 'file', 'file_noq', 'file_zero']), 'order': rng.choice(['C', 'C', 'F', 'slice']),
             'dtype': rng.choice(['f4', 'f4', 'f8']), 'over': rng.random() < .3, 'faults': [], 'sfaults': []}
        mode = p['mode'] = rng.choice(['lossless', 'failing', 'failing', 'crash', 'crash', 'alloc', 'none'])
        if p['target'] in ('text', 'stringio', 'wrapper'):
            if p['target'] != 'stringio' and mode in ('failing', 'lossless', 'crash'):
                k = ['error', 'interrupt', 'value'] if mode == 'failing' and p['target'] == 'text' else ['error', 'interrupt'] if mode == 'failing' else []
                if k:
                    p['sfaults'] = [[round(rng.random(), 4), rng.choice(k)]]
                if p['target'] == 'wrapper':
                    p['sfaults'] += [[round(rng.random(), 4), 'short'] for _ in range(rng.randrange(0, 5))]
        elif mode == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
        elif mode == 'failing':
            p['faults'] = [io.pick(rng, FAILING)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        elif mode == 'crash':
            p['faults'] = [io.pick(rng, CRASH)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        if mode == 'alloc':
            p['alloc'] = round(rng.random(), 5)
            if p['target'] != '.gz' and rng.random() < .4:      # (zlib itself crashes when its allocations fail)
                p['nomem'] = int(2 ** (rng.random() * 11))
        if rng.random() < .012:
            rows, cols = rng.choice([(40000, 1), (70000, 1), (3, 9000), (2, 40000), (20, 2500), (9000, 4)])
            p.update(rows=rows, cols=cols, nq=rng.choice([1, 3, rows // 2 or 1]), kind='small')
        return p

    def execute(self, p, ctx):
        from rankeval.dataset.dataset import Dataset
        from rankeval.dataset import svmlight_format as sf
        X, y, q = data.table(p['seed'], p['rows'], p['cols'], p['nq'], p['kind'])
        Xi, yi = X.astype(p['dtype']), y.astype(p['dtype'])
        if p['order'] == 'F':
            Xi = np.asfortranarray(Xi)
        elif p['order'] == 'slice':
            big = np.full((p['rows'] * 2, p['cols'] + 3), 7, dtype=p['dtype'])
            big[::2, 1:-2] = Xi
            Xi = big[::2, 1:-2]
        ds = Dataset(Xi, yi, q, name='d')
        api = p['api']
        before = (Xi.copy(), yi.copy(), ds.query_ids.copy(), ds.query_offsets.copy())

        def dump(t):
            if api == 'Dataset':
                return ds.dump(t)
            return sf.dump_svmlight_file(Xi, yi, t, query_id=None if api == 'file_noq' else q, zero_based=api == 'file_zero')

        ext = p['target'] if p['target'].startswith('.') else '.txt'
        path = os.path.join(ctx.scratch, 'target' + ext)
        keep = []

        def target(faults=None):
            t = p['target']
            if p['over']:
                with open(path, 'wb') as f:
                    f.write(data.pack(b'9 qid:999 1:9\n' * 50, ext))
            elif os.path.exists(path):
                os.unlink(path)
            if t == 'fd':
                fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                keep.append(fd)
                return fd
            if t == 'fileobj':
                f = open(path, 'w')
                keep.append(f)
                return f
            if t == 'stringio':
                keep.append(pyio.StringIO())
                return keep[-1]
            if t == 'wrapper':
                s = Sink(random.Random(p['seed']), faults or {})
                keep.append(s)
                keep.append(pyio.TextIOWrapper(pyio.BufferedWriter(s, 64 if p['seed'] % 2 else 8192), encoding='utf8', newline='\n'))
                return keep[-1]
            if t == 'text':
                keep.append(Text(faults or {}))
                return keep[-1]
            return path

        def content():
            """what was stored, after the caller closed what is its own"""
            t = p['target']
            if t == 'fileobj':
                keep[-1].flush()
            if t == 'wrapper':
                keep[-1].flush()
                return bytes(keep[-2].b)
            if t == 'text':
                return ''.join(keep[-1].s).encode()
            if t == 'stringio':
                return keep[-1].getvalue().encode()
            with open(path, 'rb') as f:
                b = f.read()
            if ext == '.gz':
                import gzip
                b = gzip.decompress(b)
            elif ext == '.bz2':
                import bz2
                b = bz2.decompress(b)
            return b

        def verify(what):
            try:
                b = content()
                gx, gy, gq = data.parse(b, 0 if api == 'file_zero' else 1)
            except Exception as e:
                raise Violation('unreadable', '%s: the dump returned but what it stored cannot be read: %r' % (what, e))
            ok = data.same(gx, X) and data.same(gy, y) and (api == 'file_noq' or np.array_equal(gq, q)) and b.endswith(b'\n')
            if not ok:
                raise Violation('lost', '%s: the dump returned but the stored data differ: shape %s of %s, %d bytes' % (what, gx.shape, X.shape, len(b)))
            if api in ('Dataset', 'file'):
                try:
                    if p['target'] in ('text', 'stringio', 'wrapper'):
                        back = Dataset.load(pyio.BytesIO(b))
                    else:
                        back = Dataset.load(path)
                except Exception as e:
                    raise Violation('unloadable', '%s: %r' % (what, e))
                if not (data.same(back.X, X) and data.same(back.y, y) and np.array_equal(back.get_qids_dataset(), q) and
                        np.array_equal(back.query_offsets, ds.query_offsets)):
                    raise Violation('roundtrip', what + ': the dataset loaded back differs')
            return b

        def finish():
            for f in reversed(keep):
                try:
                    os.close(f) if isinstance(f, int) else f.close()
                except (OSError, AttributeError, KeyboardInterrupt):
                    pass
            del keep[:]

        def attempt(faults, what, sfaults=None, nofault=False, alloc=None, nomem=None, must_raise=False):
            t = target(sfaults)
            err = None
            io.arm(faults)
            if alloc is not None:
                io.alloc(True, alloc)
            try:
                if nomem is not None:
                    _testcapi.set_nomemory(nomem, nomem + 1)
                dump(t)
            except BaseException as e:
                err = e
            if nomem is not None:
                _testcapi.remove_mem_hooks()
                if isinstance(err, (MemoryError, RuntimeError)):
                    ctx.fault('NOMEM')
            io.alloc(False)
            io.disarm()
            ev = io.log()
            ctx.io(ev)
            ctx.log(what, type(err).__name__ if err is not None else 'ok')
            b = None
            for f in keep:
                for k in getattr(f, 'fired', ()):
                    ctx.fault(k)
            if isinstance(err, SystemError) and nomem is None:
                raise Violation('systemerror', '%s: %r' % (what, err))
            if err is None:
                if must_raise or any(e.kind == 'ERR' and e.op in ('CLOSEW', 'WRITE', 'SYNC') for e in ev):
                    raise Violation('reported', what + ': an operation failed but the dump reported success')
                # streams of the caller may still fail in the hands of the caller
                try:
                    if p['target'] in ('fileobj', 'wrapper'):
                        keep[-1].flush()
                    flushed = True
                except (OSError, KeyboardInterrupt):
                    flushed = False
                if flushed:
                    b = verify(what)
            elif nofault:
                raise Violation('refused', '%s: %r' % (what, err))
            finish()
            return ev, b

        ev, full = attempt([], 'healthy', nofault=True)
        if p['mode'] == 'alloc':
            attempt([], 'counting', alloc=-1, nofault=True)
            n = io.alloc_count()
            if n:
                attempt([], 'alloc', alloc=min(int(p['alloc'] * n), n - 1))
                ctx.fault('ALLOC', io.alloc_fired())
            if p.get('nomem') and _testcapi:
                attempt([], 'nomem', nomem=p['nomem'])
        elif p['sfaults']:
            target()
            dump(keep[-1])
            if p['target'] == 'wrapper':
                keep[-1].flush()
                n = keep[-2].n
            else:
                n = keep[-1].n
            finish()
            attempt([], 'stream', {int(a * n): k for a, k in p['sfaults']}, nofault=all(k == 'short' for _, k in p['sfaults']))
        elif p['faults'] and ev:
            fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
            if p['mode'] == 'crash':
                self.crash(p, ctx, fs, target, dump, path, ext, full, X, y, q, ds)
                finish()
            else:
                hard = [f for f in fs if f[1] in ('ERR', 'STICKY')]
                attempt(fs, 'faulty', nofault=all(f[1] in LOSSLESS for f in fs), must_raise=False)
        attempt([], 'again', nofault=True)
        ctx.check(np.array_equal(before[0], Xi) and np.array_equal(before[1], yi) and np.array_equal(before[2], ds.query_ids) and
                  np.array_equal(before[3], ds.query_offsets), 'modified', 'the dump modified the dataset')

    def crash(self, p, ctx, fs, target, dump, path, ext, full, X, y, q, ds):
        from rankeval.dataset.dataset import Dataset
        t = target()
        io.arm(fs)
        pid = os.fork()
        if pid == 0:
            try:
                dump(t)
                os._exit(0)
            except BaseException:
                os._exit(1)
        _, st = os.waitpid(pid, 0)
        io.disarm()
        ctx.io(io.log())
        ctx.log('crash', st)
        if os.WIFSIGNALED(st):
            raise Violation('crash', 'the process died by signal %d' % os.WTERMSIG(st))
        if os.WEXITSTATUS(st) != 137:
            return
        ctx.probe('killed')
        if not os.path.exists(path):
            return
        with open(path, 'rb') as f:
            b = f.read()
        old = data.pack(b'9 qid:999 1:9\n' * 50, ext)
        if b == old and p['over']:
            return      # killed before the target was opened
        if ext == '.txt':
            if not full.startswith(b):
                raise Violation('not-a-prefix', 'after a kill the plain file is not a prefix of the dump: %r...' % b[:200])
            if b and b != full:
                ctx.probe('partial file')
        else:
            try:
                back = Dataset.load(path)
            except Exception:
                ctx.probe('torn archive refused')
                return
            if not (data.same(back.X, X) and data.same(back.y, y)):
                raise Violation('torn-archive', 'an archive torn by a kill loads as a different dataset of shape %s' % (back.X.shape,))


CHECK = C02()
