"""C01: loading a dataset is exact or raises, whatever its input stream does."""
import io as pyio
import os
import random
import resource

import _testcapi
import numpy as np

from sim import data, io
from sim.core import Check, Invalid, Violation

LOSSLESS = ['SHORT', 'EINTR']
FAILING = ['ERR', 'ERR', 'SIGINT', 'SIGINT_EINTR']
DAMAGE = ['ZERO']
ARCHIVE_DAMAGE = ['FLIP', 'FLIP', 'ZERO', 'EOF']
BAD_LINES = ['', 'x qid:1 1:1', '1', '1 qid:1 1:', '1 qid:1 foo', '1 qid:1 :3', '1 qid:1 1=3', 'qid:1 1:2', '1 qid:1 1:2 bar:3',
             '1 qid:1 1:x', '\0' * 40, '1 qid:1 1:1\0 2:2', '1 qid:a 1:1', '1 1:1 qid:x', '1 qid:1 2:5 2:6', '1 qid:1 2:5 1:6',
             '1 qid:5x 1:3', '1 qid:4294967300 1:3', '1 qid:1 1:3abc', '1 qid:1 -3:4', '1 qid:1 4294967297:4', '1 qid:1 1:2 3:0x']
SPLIT_QUERY = '@split'  # a document of the first query again at the end: the queries are not contiguous any more


class Stream(pyio.RawIOBase):
    """a binary stream of the caller, with its own failures"""

    def __init__(self, content, rng, faults):
        self.c, self.pos, self.rng, self.faults, self.n, self.fired = content, 0, rng, faults, 0, []

    def readable(self):
        return True

    def readinto(self, b):
        k = self.n
        self.n += 1
        f = self.faults.get(k)
        if f == 'error':
            self.fired.append('STREAM_ERROR')
            raise OSError(5, 'injected')
        if f == 'interrupt':
            self.fired.append('STREAM_INTERRUPT')
            raise KeyboardInterrupt
        if f == 'value':
            self.fired.append('STREAM_EXCEPTION')
            raise ValueError('injected')
        n = len(b)
        if f == 'short':
            self.fired.append('STREAM_SHORT')
            n = max(1, min(n, self.rng.randrange(1, 50)))
        d = self.c[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


class Lines:
    """an object with just read and readline"""

    def __init__(self, content, faults):
        self.b, self.faults, self.n, self.fired = pyio.BytesIO(content), faults, 0, []

    def read(self, n=-1):
        return self.b.read(n)

    def readline(self, n=-1):
        f = self.faults.get(self.n)
        self.n += 1
        if f in ('error', 'value', 'interrupt'):
            self.fired.append('STREAM_ERROR')
            raise {'error': OSError(5, 'injected'), 'value': ValueError('injected'), 'interrupt': KeyboardInterrupt()}[f]
        if f == 'text':
            self.fired.append('STREAM_TYPE')
            return self.b.readline(n).decode()
        if f == 'none':
            self.fired.append('STREAM_TYPE')
            self.b.readline(n)
            return None
        return self.b.readline(n)


class C01(Check):
    id = 'C01'
    runs = 6000
    lists = ('faults',)
    ints = {'rows': 1, 'cols': 1, 'nq': 1}
    real = ['rankeval.dataset (Dataset, svmlight_format)', '_svmlight_format.cpp (built from the tree)', 'CPython io, gzip, bz2',
            'kernel file system below the fault layer']
    stub = ['libc I/O calls on the scratch folder (fault layer)', 'operator new (failing allocations)', 'stream objects of the caller']
    level_rule = ('Each seed draws a dataset, its text (sparse, comments, line ends), a source (path, .gz, .bz2, descriptor, stream), '
                  'an API and 0-3 faults placed at operations of a fault-free load.')
    assumptions = ['streams are blocking', 'plain text cannot reveal a truncation or a flipped digit: these are injected in archives '
                   'only (zero-filled blocks everywhere)', 'multi-member archives are only read undamaged',
                   'values are finite (infinities are documented to be clipped)']

    def preload(self):
        import rankeval.dataset.dataset, rankeval.dataset.svmlight_format  # noqa
        import gzip, bz2  # noqa

    def generate(self, rng, tier):
        big = rng.random() < (.25 if tier == 'quick' else .4)
        source = rng.choice(['.txt', '.txt', '.gz', '.bz2', 'fd', 'stream', 'buffered', 'lines', 'fileobj'])
        p = {'seed': rng.randrange(1 << 30), 'rows': rng.randrange(60, 500) if big else rng.randrange(1, 30),
             'cols': rng.randrange(8, 30) if big else rng.randrange(1, 12), 'nq': rng.randrange(1, 12),
             'kind': rng.choice(['wild', 'small', 'dyadic', 'unit']), 'sparse': rng.random() < .5, 'comments': rng.random() < .3,
             'eol': '\r\n' if rng.random() < .1 else '\n', 'final_eol': rng.random() < .85, 'source': source,
             'empty_head': rng.randrange(0, 4) if rng.random() < .15 else 0,
             'before': rng.randrange(1, 1 << 30) if rng.random() < .3 else 0,
             'api': rng.choice(['Dataset', 'Dataset', 'file', 'file_noq', 'files']), 'members': 1, 'faults': []}
        mode = rng.choice(['lossless', 'failing', 'failing', 'damage', 'damage', 'alloc', 'bad', 'none'])
        p['mode'] = mode
        arch = source in ('.gz', '.bz2')
        if source in ('stream', 'buffered', 'lines'):
            kinds = {'lossless': ['short'], 'failing': ['error', 'interrupt', 'value'], 'damage': ['short']}.get(mode, ['short'])
            if source == 'lines':
                kinds = {'failing': ['error', 'value', 'interrupt', 'text', 'none'], 'damage': ['text', 'none']}.get(mode, [])
            if kinds:
                p['sfaults'] = [[round(rng.random(), 4), rng.choice(kinds)] for _ in range(rng.choice([1, 1, 2, 5]))]
            if source != 'lines' and mode != 'none':
                p['sfaults'] = p.get('sfaults', []) + [[round(rng.random(), 4), 'short'] for _ in range(rng.randrange(0, 6))]
        elif mode == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
            if arch and rng.random() < .3:
                p['members'] = rng.randrange(2, 5)
        elif mode == 'failing':
            p['faults'] = [io.pick(rng, FAILING)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        elif mode == 'damage':
            p['faults'] = [io.pick(rng, ARCHIVE_DAMAGE if arch else DAMAGE)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 2))]
        if mode == 'alloc':
            p['alloc'] = round(rng.random(), 5)
            if not arch and rng.random() < .5:     # (zlib itself crashes when its allocations fail)
                p['nomem'] = int(2 ** (rng.random() * 11))
        if mode == 'bad':
            p['bad'] = [round(rng.random(), 4), rng.choice(BAD_LINES)]
            if p['api'] == 'Dataset' and rng.random() < .2:
                p['bad'][1] = SPLIT_QUERY
        if mode == 'damage' and arch and rng.random() < .4:
            p['trunc'] = round(rng.random(), 4)
        if rng.random() < .012:
            # beyond the sizes at which counters, buffers and reallocations change
            rows, cols = rng.choice([(40000, 1), (70000, 1), (3, 9000), (2, 40000), (20, 2500), (9000, 4)])
            p.update(rows=rows, cols=cols, nq=rng.choice([1, 3, rows // 2 or 1]), kind='dyadic')
        if rng.random() < .003:
            # absent features which make more cells than 32 bits count (and than the memory given holds)
            rows = rng.choice([30000, 40000, 50000, 60000, 70000])
            p['gap'] = {'rows': rows, 'old': rng.randrange(1, 4), 'k': rng.choice([1, 2, 3, 4]) if rng.random() < .7 else round(rng.random() * 5, 3), 'more': rng.randrange(0, 3)}
        return p

    def gap(self, p, ctx):
        from rankeval.dataset import Dataset
        g = p['gap']
        n, old = g['rows'], g['old']
        new = old + int(g['k'] * (n + 1))
        line = b'1 qid:7 ' + b' '.join(b'%d:%d' % (i + 1, i + 2) for i in range(old)) + b'\n'
        text = line * n + b'1 qid:7 %d:5\n' % new + line * g['more']
        with open('/proc/self/statm') as f:
            used = int(f.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (used + (1 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))
        for _ in range(2):
            try:
                d = Dataset.load(pyio.BytesIO(text))
            except Exception as e:
                ctx.log('refused', type(e).__name__)
            else:
                if d.X.shape != (n + 1 + g['more'], new) or d.n_features != new:
                    raise Violation('wrong:gap', 'the loaded data differ from the file; shape %s, expected %s' % (d.X.shape, (n + 1 + g['more'], new)))
                head = d.X[:n, :old] == np.arange(2, old + 2)
                if not head.all() or d.X[:n, old:].any() or d.X[n, new - 1] != 5 or d.X[n, :new - 1].any():
                    raise Violation('wrong:gap', 'the loaded data differ from the file')
                del d
        d = Dataset.load(pyio.BytesIO(line * 50))
        if d.X.shape != (50, old) or not (d.X == np.arange(2, old + 2)).all():
            raise Violation('wrong:after', 'the dataset loaded after the failure differs from its file')
        ctx.fault('no_memory_for_the_dataset')

    def execute(self, p, ctx):
        from rankeval.dataset.dataset import Dataset
        from rankeval.dataset import svmlight_format as sf
        if p.get('gap'):
            return self.gap(p, ctx)
        rng = random.Random(p['seed'])
        noq = p['api'] == 'file_noq' and rng.random() < .5
        X, y, q = data.table(p['seed'], p['rows'], p['cols'], p['nq'], p['kind'])
        for i in range(min(p['empty_head'], p['rows'] - 1)):
            X[i, :] = 0
        text = data.render(p['seed'] + 1, X, y, None if noq else q, p['sparse'], p['comments'], p['eol'], p['final_eol'])
        bad = None
        if p.get('bad'):
            lines = text.split(b'\n')
            k = int(p['bad'][0] * len(lines))
            if k == len(lines) - 1 and not p['bad'][1]:
                k = max(0, k - 1)
            line = p['bad'][1].encode()
            if not line and p['eol'] != '\n':
                line = b' '
            if p['bad'][1] == SPLIT_QUERY:
                if q[0] == q[-1]:
                    raise Invalid('a single query')
                k, line = (len(lines) if lines[-1] else len(lines) - 1), next(x for x in lines if x.strip() and not x.startswith(b'#'))
            lines.insert(k, line)
            bad = b'\n'.join(lines)
            if bad.rstrip(b'\n') == text.rstrip(b'\n'):
                raise Invalid('nothing inserted')
            ctx.fault('INVALID_LINE')
        ext = p['source'] if p['source'].startswith('.') else '.txt'
        want = (X, y, q)

        def put(name, t, cut=None):
            path = os.path.join(ctx.scratch, name + ext)
            b = data.pack(t, ext, rng.choice([1, 6, 9]), p['members'])
            if cut is not None:
                b = b[:min(int(cut * len(b)), len(b) - 1)]
            with open(path, 'wb') as f:
                f.write(b)
            return path

        def compare(got, what):
            if p['api'] == 'Dataset':
                sizes = np.append(np.flatnonzero(np.append(True, q[1:] != q[:-1])), len(q))
                ok = (data.same(got.X, X) and data.same(got.y, y) and np.array_equal(got.query_ids, q[sizes[:-1]]) and
                      np.array_equal(got.query_offsets, sizes) and got.n_instances == len(y) and got.n_features == X.shape[1] and
                      got.n_queries == len(sizes) - 1)
                shape = got.X.shape
            else:
                g = list(got)
                n = 1 if p['api'] != 'files' else 2
                w = [X, y] if p['api'] == 'file_noq' else [X, y, q.astype(np.int32)]
                ok = len(g) == n * len(w) and all(data.same(a, b) for a, b in zip(g, w * n))
                shape = [getattr(a, 'shape', None) for a in g]
            if not ok:
                raise Violation('wrong:' + what.split()[0], '%s: the loaded data differ from the file; shape %s, expected %s' % (what, shape, X.shape))

        def load(src, second=None):
            if p['api'] == 'Dataset':
                return Dataset.load(src, name='d')
            if p['api'] == 'files':
                return sf.load_svmlight_files([second, src] if second is not None else [src, src], query_id=True)
            return sf.load_svmlight_file(src, query_id=p['api'] == 'file')

        if p.get('before'):
            # another dataset was there, and was loaded
            X0, y0, q0 = data.table(p['before'], 1 + p['before'] % 40, p['cols'], p['nq'], p['kind'])
            d = Dataset.load(put('good', data.render(p['before'], X0, y0, q0, p['sparse'], p['comments'], p['eol'], True)))
            if not (data.same(d.X, X0) and data.same(d.y, y0)):
                raise Violation('wrong:before', 'the dataset before: the loaded data differ from the file')
        good = put('good', text)
        target = put('bad', bad) if bad is not None else put('cut', text, p['trunc']) if 'trunc' in p else good
        if 'trunc' in p:
            ctx.fault('TRUNCATED_ARCHIVE')
        content = bad if bad is not None else text
        keep = []

        def source(path, faults=None, t=None):
            t = content if t is None else t
            s = p['source']
            if s == 'fd':
                fd = os.open(path, os.O_RDONLY)
                keep.append(fd)
                return fd
            if s == 'fileobj':
                f = open(path, 'rb')
                keep.append(f)
                return f
            if s == 'stream' or s == 'buffered':
                st = Stream(t, random.Random(p['seed']), faults or {})
                keep.append(st)
                return pyio.BufferedReader(st, 16 if len(t) < 3000 else 512) if s == 'buffered' else st
            if s == 'lines':
                st = Lines(t, faults or {})
                keep.append(st)
                return st
            return path

        def second(path):
            return good if p['api'] == 'files' and p['source'] != '.txt' else None

        def attempt(src, faults, what, must_raise=False, nofault=False):
            sec = second(src) if p['api'] == 'files' else None
            err = got = None
            io.arm(faults)
            if alloc is not None:
                io.alloc(True, alloc)
            try:
                if nomem is not None:
                    _testcapi.set_nomemory(nomem, nomem + 1)
                got = load(src, sec if sec is not None else good)
            except BaseException as e:
                err = e
            if nomem is not None:
                _testcapi.remove_mem_hooks()
                if isinstance(err, MemoryError):
                    ctx.fault('NOMEM')
            io.alloc(False)
            io.disarm()
            ev = io.log()
            ctx.io(ev)
            if isinstance(err, SystemError) and nomem is None:      # (numpy itself gives it when its allocations fail)
                raise Violation('systemerror', '%s: %r' % (what, err))
            ctx.log(what, type(err).__name__ if err is not None else 'ok')
            if err is None:
                if must_raise:
                    raise Violation('accepted', '%s: loaded without any error' % what)
                compare(got, what)
            elif nofault:
                raise Violation('refused', '%s: %r' % (what, err))
            return ev, err

        alloc = nomem = None
        # 1. a healthy load
        ev, _ = attempt(source(good, t=text), [], 'healthy', nofault=True)
        # 2. with faults
        if p['mode'] == 'alloc':
            alloc = -1
            attempt(source(good, t=text), [], 'counting', nofault=True)
            n = io.alloc_count()
            if n:
                alloc = min(int(p['alloc'] * n), n - 1)
                attempt(source(good, t=text), [], 'alloc')
                ctx.fault('ALLOC', io.alloc_fired())
            alloc = None
            if p.get('nomem'):
                nomem = p['nomem']
                attempt(source(good, t=text), [], 'nomem')
                nomem = None
        if p.get('sfaults'):
            s0 = source(good, t=text)
            load(s0, good)
            n = max(1, keep[-1].n)
            src = source(good, {int(a * n): k for a, k in p['sfaults']})
            st = keep[-1]
            bads = [k for _, k in p['sfaults'] if k != 'short']
            attempt(src, [], 'stream', must_raise=bad is not None)
            for k in st.fired:
                ctx.fault(k)
            if not bads and not bad:
                pass
        elif target is not good or p['faults']:
            src = source(target)
            if target is not good:
                base, _ = attempt(src, [], 'defective', must_raise=True)
                src = source(target)
            else:
                base = ev
            if p['faults']:
                only = (lambda e: e.path.startswith('/good') or e.path.startswith('/bad')) if True else None
                fs = [io.resolve(f, base, only) for f in p['faults']]
                if 'EOF' in [f['kind'] for f in p['faults']] or 'FLIP' in [f['kind'] for f in p['faults']]:
                    if p['members'] > 1 or ext == '.txt':
                        raise Invalid('undetectable damage')
                fs = [f for f in fs if f]
                lossless = all(f[1] in LOSSLESS for f in fs)
                attempt(src, fs, 'faulty', nofault=lossless and target is good, must_raise=target is not good)
        elif bad is not None:
            attempt(source(target), [], 'defective', must_raise=True)
        # 3. the process keeps working
        for f in keep:
            if isinstance(f, int):
                os.close(f)
            elif hasattr(f, 'close'):
                f.close()
        del keep[:]
        attempt(source(good, t=text), [], 'again', nofault=True)


CHECK = C01()
