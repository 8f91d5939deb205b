"""C31: what an operation gives depends on what it is given, not on the surroundings."""
import ctypes
import gc
import os
import random
import re
import sys
import threading
import warnings

import numpy as np

from sim import inject, io, omp, ops
from sim.bits import flat, forked, show
from sim.core import Check, Ctx, Violation

LOCALES = ('de_DE.UTF-8', 'de_DE.ISO-8859-1', 'tr_TR.UTF-8', 'zh_CN.GBK')
BENIGN = ['SHORT', 'EINTR']
_c = ctypes.CDLL(None)
M_PERTURB = -6


class C31(Check):
    id = 'C31'
    runs = 6000
    quick_seconds = 120
    lists = ('around', 'history')
    ints = ops.INTS
    real = ['rankeval (datasets, models, metrics, scoring, analyses, export)', 'NumPy, xarray, gzip, bz2, expat', 'locales of the C library']
    stub = ['OpenMP runtime (seeded schedule)', 'libc I/O calls on the scratch folder (fault layer)', 'contents of fresh memory', 'lack of memory and interrupts of earlier operations']
    measure = 'distinct operations by surroundings'
    level_rule = ('Each seed draws an operation of the library and the surroundings in which it is repeated (locale, memory, threads, settings of NumPy, collector, generators, '
                  'folder, earlier operations, some of them failed): results, files and exceptions must be the same bit by bit.')
    assumptions = ['generators in which an operation documents to draw are seeded alike', 'system calls that are short or interrupted are repeated by CPython']

    def preload(self):
        ops.preload()
        omp.lib()

    def generate(self, rng, tier):
        p = ops.draw(rng)
        p['damage'] = p['op'] in ('load', 'model') and rng.random() < .25
        p['at'] = round(rng.random(), 5)
        kinds = ['locale', 'locale', 'memory', 'memory', 'numpy', 'gc', 'random', 'threads', 'cwd', 'umask', 'thread', 'environ', 'history', 'history', 'history', 'stdout']
        if p['op'] in ops.FILES:
            kinds += ['io'] * 2 + ['locale'] * 2
        if p['op'] == 'importance':
            kinds.remove('threads')     # sums in any order: C13
        around = sorted(set(rng.choice(kinds) for _ in range(rng.choice([1, 2, 2, 4, 7]))))
        p['around'] = around
        p['locale'] = rng.choice(LOCALES)
        p['fill'] = rng.choice([1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff])
        p['omp'] = omp.draw(rng)
        p['gc'] = rng.choice([1, 1, 5, 50])
        p['rseed'] = rng.randrange(1 << 30)
        p['print'] = rng.randrange(1, 4)
        p['pad'] = rng.random() < .3
        p['names'] = rng.random() < .5
        p['removed'] = rng.random() < .5
        p['faults'] = [io.pick(rng, BENIGN) for _ in range(rng.randrange(1, 4))] if 'io' in around else []
        p['history'] = []
        if 'history' in around:
            for _ in range(rng.randrange(1, 4)):
                h = ops.draw(rng)
                if rng.random() < .5:
                    h['op'], h['target'], h['how'], h['format'] = p['op'], p['target'], p['how'], p['format']
                    if rng.random() < .5:       # the very same, or the same but for the numbers
                        h = dict(p, history=[], seed=p['seed'] if rng.random() < .5 else h['seed'])
                h['fault'] = inject.draw(rng) if rng.random() < .4 else None
                h['harm'] = round(rng.random(), 3) if rng.random() < .2 else None
                p['history'].append(h)
        return p

    def execute(self, p, ctx):
        warnings.simplefilter('ignore')
        plain = forked(lambda: self.one(p, ctx, False))
        other = forked(lambda: self.one(p, ctx, True))
        what = '%s (%s)' % (p['op'], p['kind'] if p['op'] == 'analysis' else p['format'] if p['op'] == 'model' else p['target'])
        for r in (plain, other):
            if r['error'] is not None and r['error'][2] and not p['damage']:
                raise Violation('raised:' + r['error'][0], '%s: %s: %s%s' % (what, r['error'][0], r['error'][1], '' if r is plain else ' with ' + ', '.join(p['around'])))
        for k in other['done']:
            ctx.fault(k)
        ctx.io(other['io'])
        ctx.log(p['op'], len(plain['flat']), other['error'] and other['error'][0])
        ctx.state(what, tuple(p['around']), other['error'] and other['error'][0])
        ctx.steps += len(plain['flat'])
        ctx.nontrivial = True
        around = ', '.join('%s %s' % (k, p['locale']) if k == 'locale' else k for k in p['around'])
        if plain['error'] != other['error']:
            raise Violation('differs', '%s: %r, but %r with %s' % (what, plain['error'], other['error'], around))
        a, b = plain['flat'], other['flat']
        for x, y in zip(a, b):
            if x != y:
                raise Violation('differs', '%s: %s, but %s with %s' % (what, show(x), show(y), around))
        if len(a) != len(b):
            raise Violation('differs', '%s: more or fewer parts with %s' % (what, around))

    def one(self, p, ctx, disturbed):
        on = set(p['around']) if disturbed else set()
        mine = Ctx(os.path.join(ctx.scratch, 'o'))
        os.makedirs(mine.scratch, exist_ok=True)
        done = []

        def fault(k):
            done.append(k)
        omp.start(p['omp'] if 'threads' in on else {'threads': 1, 'policy': 'serial', 'p': .001, 'shrink': False, 'oseed': 1})
        if 'threads' in on:
            fault('THREADS')
        if 'locale' in on:
            os.environ['LOCPATH'] = os.path.join(os.environ['SIM_BUILD'], 'locale')
            import locale
            try:
                locale.setlocale(locale.LC_ALL, p['locale'])
                fault('LOCALE')
            except locale.Error:
                pass        # there is none
        if 'memory' in on:
            _c.mallopt(M_PERTURB, p['fill'])
            fault('MEMORY_FILL')
        if 'numpy' in on:
            np.set_printoptions(precision=p['print'], threshold=p['print'], suppress=True, linewidth=20)
            np.seterr(all='ignore')
            fault('SETTINGS_NUMPY')
        if 'gc' in on:
            gc.enable()
            gc.set_threshold(p['gc'])
            fault('COLLECTOR')
        if 'random' in on:
            fault('GENERATORS')
        if 'umask' in on:
            os.umask(0o77)
            fault('UMASK')
        if 'cwd' in on:
            d = os.path.join(ctx.scratch, 'elsewhere')
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            if p['removed']:
                os.rmdir(d)
            fault('FOLDER')
        if 'environ' in on:
            os.environ.update(LOCPATH=os.path.join(os.environ['SIM_BUILD'], 'locale'), LC_ALL=p['locale'], TMPDIR='/nonexistent', HOME='/nonexistent', TZ='Asia/Kolkata', COLUMNS='10')
            os.environ.pop('PATH', None)
            fault('ENVIRONMENT')
        if 'stdout' in on:
            sys.stdout = sys.stderr = None
            fault('NO_OUTPUT')
        keep = []
        if 'history' in on:
            import shutil
            for h in p['history']:
                try:
                    np.random.seed(h['seed'] & 0xffffff)
                    job = ops.Operation(h, mine, h['harm'])
                    pad(job, p)
                    g = job.prepare()
                    f = lambda: job.work(g)
                    if h['fault']:
                        r = inject.run(h['fault'], f)
                        if r[2]:
                            fault('EARLIER_' + ('ALLOC' if h['fault']['kind'] == 'alloc' else h['fault']['kind']))
                    else:
                        r = f()
                    fault('EARLIER')
                    if h['seed'] % 2:
                        keep.append((r, g))
                except Exception:
                    fault('EARLIER_FAILED')
                r = g = job = None
                shutil.rmtree(os.path.join(mine.scratch, 'd'), ignore_errors=True)
        job = ops.Operation(p, mine, p['at'] if p['damage'] else None)
        pad(job, p)
        if p['names'] and p['op'] == 'model' and p['format'] == 'LightGBM':
            # it writes the names of the features in UTF-8
            job.good = job.good.replace(b'objective=', b'feature_names=%s\nobjective=' % 'Alter Gr\xf6\xdfe \u6e29\u5ea6\u65e5'.encode(), 1)
        omitted = p['op'] in ops.DRAWING and not (p['op'] == 'split' and p['how'] % 3)
        g = job.prepare()
        res = {'error': None, 'done': done, 'io': []}
        faults = []
        if 'io' in on:
            def points():
                io.arm([])
                try:
                    job.work(job.prepare())
                except Exception:
                    pass
                io.disarm()
                return len(io.log()), [tuple(e) for e in io.log()]
            n, log = forked(points)
            log = [io.Event(e) for e in log]
            faults = [f for f in (io.resolve(f, log) for f in p['faults']) if f]
            g = job.prepare()
        if 'random' in on and not omitted:
            np.random.seed(p['rseed'])
            random.seed(p['rseed'])
        else:
            np.random.seed(p['seed'] & 0xffffff)
            random.seed(p['seed'])

        def go():
            io.arm(faults)
            try:
                r = job.work(g)
                if p['op'] == 'node':
                    r[2] = None     # the hash of a model is that of its identity
                return flat(r)
            except Exception as e:
                from sim.core import in_library
                res['error'] = (type(e).__name__, re.sub(r'0x[0-9a-f]+|in position \d+', '0x', str(e)), in_library(e))
            finally:
                io.disarm()
        if 'thread' in on:
            fault('THREAD')
            box = []
            t = threading.Thread(target=lambda: box.append(go()))
            t.start()
            t.join()
            r = box[0]
        else:
            r = go()
        res['io'] = io.log() if 'io' in on else []
        r = r or []
        if 'stream' in g and hasattr(g['stream'], 'text'):
            r.append(('stream', g['stream'].text()))
        # and the files
        for d, _, files in sorted(os.walk(job.folder)):
            for x in sorted(files):
                with open(os.path.join(d, x), 'rb') as f:
                    b = f.read()
                if x.endswith('.gz'):
                    b = b[:4] + b[8:]       # but for the time
                r.append((x, len(b), b))
        # and what was given
        for k in sorted(g):
            if k != 'stream':
                r += flat(g[k], k)
        res['flat'] = r
        import shutil
        shutil.rmtree(job.folder)
        return res


def pad(job, p):
    """files of the same size"""
    if p['pad'] and job.good and job.target not in ('.gz', '.bz2'):
        n = -len(job.good) % 16384
        job.good += b'#' + b' ' * (n - 2) + b'\n' if job.op == 'load' and n > 1 else b'\n' * n


CHECK = C31()
