"""C03: files opened by the library are closed, files of the caller are left open."""
import gc
import io as pyio
import os
import random
import warnings

import numpy as np

from sim import data, inject, io, models
from sim.core import Check, Invalid, Violation

LOSSLESS = ['SHORT', 'EINTR']
FAILING = ['ERR', 'ERR', 'ERR', 'SIGINT', 'SIGINT_EINTR']
MARK = b'# mark of the caller\n'


def descriptors():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            st = os.stat(int(n))
            out[int(n)] = (st.st_dev, st.st_ino)
        except OSError:
            pass
    return out


class C03(Check):
    id = 'C03'
    runs = 4000
    lists = ('faults',)
    ints = {'rows': 1, 'cols': 1, 'n_trees': 1, 'size': 1, 'repeat': 1}
    real = ['rankeval.dataset (load, dump)', 'rankeval.model (load, save)', 'export_graphviz', 'CPython io, gzip, bz2', 'kernel file system below the fault layer']
    stub = ['libc I/O calls on the scratch folder (fault layer)', 'user interrupts and failing allocations at Python lines', 'stream objects of the caller']
    level_rule = ('Each seed draws an operation of the library that works on a file, who owns the file, and faults, damaged content or an interrupt '
                  'during the operation, repeated a few times.')
    assumptions = ['descriptors still referred to by a pending exception count once it has been handled and garbage collected',
                   'CatBoost models are read by coremltools, whose descriptors are not those of the library']

    def preload(self):
        import rankeval.dataset.dataset, rankeval.model, rankeval.visualization.topological, gzip, bz2  # noqa

    def generate(self, rng, tier):
        op = rng.choice(['load', 'load', 'load', 'dump', 'dump', 'model', 'model', 'save', 'export'])
        p = {'seed': rng.randrange(1 << 30), 'op': op, 'rows': rng.choice([3, 10, 60, 400]), 'cols': rng.randrange(1, 12), 'n_trees': rng.randrange(1, 12),
             'size': rng.randrange(1, 12), 'repeat': rng.randrange(1, 4), 'faults': []}
        p['target'] = {'load': ['.txt', '.gz', '.bz2', 'fd', 'file', 'bytesio', 'raw', 'gzipfile'],
                       'dump': ['.txt', '.gz', '.bz2', 'fd', 'file', 'stringio', 'textwrapper'],
                       'model': ['QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests'], 'save': ['.txt'],
                       'export': ['.txt', 'file', 'stringio', 'string']}[op]
        p['target'] = rng.choice(p['target'])
        m = p['mode'] = rng.choice(['none', 'lossless', 'failing', 'failing', 'failing', 'interrupt', 'interrupt', 'damage', 'missing'])
        if m == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 6))]
        elif m == 'failing':
            p['faults'] = [io.pick(rng, FAILING)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        elif m == 'interrupt':
            p['at'] = round(rng.random(), 5)
            p['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            p['opcodes'] = rng.random() < .5
        elif m == 'damage':
            p['at'] = round(rng.random(), 5)
        return p

    def execute(self, p, ctx):
        from rankeval.dataset.dataset import Dataset
        from rankeval.model import RTEnsemble
        from rankeval.visualization.topological import export_graphviz
        op, tg = p['op'], p['target']
        X, y, q = data.table(p['seed'], p['rows'], p['cols'], 4, 'unit')
        ds = Dataset(X, y, q)
        trees = models.ensemble(p['seed'], p['n_trees'], p['size'], p['cols'])
        model = models.load(trees, os.path.join(ctx.scratch, 'm0.xml'))
        ext = tg if tg.startswith('.') else '.txt'
        path = os.path.join(ctx.scratch, 'file' + ext)
        if op == 'load':
            b = pyio.StringIO()
            ds.dump(b)
            good = data.pack(b.getvalue().encode(), '.gz' if tg == 'gzipfile' else ext)
        elif op == 'model':
            models.write(trees, path, tg, p['seed'])
            with open(path, 'rb') as f:
                good = f.read()
        else:
            good = None
        bad = good
        if p['mode'] == 'damage' and good:
            k = int(p['at'] * len(good))
            bad = good[:k] if p['seed'] % 2 else good[:k] + b'\x00<x:\xff' + good[k + 5:]

        def prepare(content):
            if content is not None:
                with open(path, 'wb') as f:
                    f.write(content)
            elif os.path.exists(path):
                os.unlink(path)

        def opened():
            """what is given to the library, and how to see afterwards that it is still usable"""
            if tg == 'fd':
                fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)
                return fd
            if tg == 'file':
                return open(path, 'rb' if op == 'load' else 'w+')
            if tg == 'raw':
                return open(path, 'rb', buffering=0)
            if tg == 'gzipfile':
                import gzip
                return gzip.open(path, 'rb')
            if tg == 'bytesio':
                with open(path, 'rb') as f:
                    return pyio.BytesIO(f.read())
            if tg == 'stringio':
                return pyio.StringIO()
            if tg == 'textwrapper':
                return pyio.TextIOWrapper(pyio.BytesIO(), encoding='utf8')
            return None if tg == 'string' else path

        def run(t):
            if op == 'load':
                return Dataset.load(t)
            if op == 'dump':
                return ds.dump(t)
            if op == 'model':
                return RTEnsemble(t, format=tg)
            if op == 'save':
                return model.save(t)
            return export_graphviz(model, out_file=t)

        mine = not (tg.startswith('.') or op == 'model' or tg == 'string')

        def usable(t, content, what):
            """the caller goes on using what is its own"""
            try:
                if isinstance(t, int):
                    if op == 'load':
                        os.lseek(t, 0, os.SEEK_SET)
                        ok = os.read(t, len(content) + 10) == content
                    else:
                        ok = os.write(t, MARK) == len(MARK) and os.pread(t, 1 << 24, 0).endswith(MARK)
                elif op == 'load':
                    t.seek(0)
                    if tg == 'gzipfile':
                        try:
                            t.read()
                            ok = True
                        except ValueError:      # closed
                            raise
                        except Exception:       # damaged content
                            ok = True
                    else:
                        ok = t.read() == content
                else:
                    t.write(MARK.decode())
                    t.flush()
                    t.seek(0)
                    ok = t.read().endswith(MARK.decode())
            except (OSError, ValueError) as e:
                raise Violation('closed', '%s: the %s of the caller is not usable any more: %r' % (what, tg, e))
            ctx.check(ok, 'unusable', '%s: the %s of the caller does not work as before' % (what, tg))

        def attempt(content, faults, what, nofault=False, inj=None, cls='io'):
            prepare(content)
            t = opened() if p['mode'] != 'missing' or what == 'again' or mine else path + '.missing/x'
            gc.collect()
            before = descriptors()
            err = None
            result = None
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always', ResourceWarning)
                io.arm(faults)
                try:
                    if inj is not None:
                        with inj:
                            result = run(t)
                    else:
                        result = run(t)
                except BaseException as e:
                    err = repr(e)
                    del e
                io.disarm()
                ev = io.log()
                if err is not None or inj is not None:
                    gc.collect()
                after = descriptors()
                gc.collect()
            ctx.io(ev)
            if inj is not None and inj.fired:
                ctx.fault('RAISED_' + inj.exc.__name__)
            ctx.log(what, (err or 'ok').split('(')[0])
            lost = {f: after.get(f) for f in before if after.get(f) != before[f]}
            more = {f: after[f] for f in after if f not in before}
            if lost:
                raise Violation('closed', '%s (%s): descriptors of the caller were closed or replaced' % (what, err))
            if more:
                raise Violation('leak', '%s (%s): %d descriptors were left open' % (what, err, len(more)))
            if inj is None and not any('SIGINT' in e.kind for e in ev):
                un = [str(w.message) for w in ws if issubclass(w.category, ResourceWarning) and ctx.scratch in str(w.message)]
                if un:
                    raise Violation('unclosed', '%s (%s): a file was left to the garbage collector: %s' % (what, err, un[0]))
            if nofault and err:
                raise Violation('refused', '%s: %s' % (what, err))
            if mine:
                try:
                    usable(t, content, what)
                finally:
                    if isinstance(t, int):
                        os.close(t)
                    else:
                        try:
                            t.close()
                        except OSError:
                            pass
                ctx.probe('stream of the caller still usable')
            return ev

        for _ in range(p['repeat']):
            m = p['mode']
            if m in ('lossless', 'failing'):
                ev = attempt(good, [], 'healthy', nofault=True, cls='healthy')
                fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
                attempt(good, fs, 'faulty', nofault=all(f[1] in LOSSLESS for f in fs))
            elif m == 'interrupt':
                cnt = inject.At(opcodes=p['opcodes'])
                attempt(good, [], 'counting', nofault=True, inj=cnt)
                attempt(good, [], 'interrupt', inj=inject.At(int(p['at'] * cnt.n), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[p['exc']],
                                                             opcodes=p['opcodes']))
            elif m == 'damage' and good:
                ctx.fault('DAMAGED_CONTENT')
                attempt(bad, [], 'damaged')
            elif m == 'missing' and not mine and tg != 'string':
                ctx.fault('MISSING_FILE')
                attempt(good, [], 'missing')
        attempt(good, [], 'again', nofault=True, cls='healthy')


CHECK = C03()
