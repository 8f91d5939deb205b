"""C32: operations can be nested in one another."""
import os
import random
import signal as sig
import sys
import time
import warnings

import numpy as np

from sim import inject, io, metrics, omp, ops, scoring
from sim.bits import flat, forked, show
from sim.core import Check, Ctx, Violation


IDLE = 4       # seconds without using the processor, three times in a row, for operations of milliseconds


class Stuck(Exception):
    pass


class Calls(inject.At):
    """calls a function at some of the instructions of the library, as the handler of a signal"""

    def __init__(self, at, fn, opcodes):
        inject.At.__init__(self, None, None, opcodes)
        self.places, self.fn, self.seen = set(at), fn, []

    def _count(self, frame):
        n = self.n
        self.n += 1
        if n in self.places:
            self.seen.append('%s:%d' % (frame.f_code.co_name, frame.f_lineno))
            sys.settrace(None)
            try:
                self.fn()
            finally:
                sys.settrace(self._global)


class C32(Check):
    id = 'C32'
    runs = 6000
    quick_seconds = 120
    lists = ('inner',)
    ints = ops.INTS
    real = ['rankeval (datasets, models, metrics, scoring, analyses, export)', 'NumPy, xarray, gzip, bz2, expat']
    stub = ['signals, and the streams, metrics and learners of the user, which call the library themselves', 'libc I/O calls on the scratch folder (fault layer)']
    measure = 'distinct pairs of operations by the place where the inner one runs'
    level_rule = ('Each seed draws an operation and up to three others which run within it, at any line or instruction of the library (as the handler of a signal does) or in '
                  'a stream, metric or learner of the user, on objects of their own or on the same ones, some failing; each must give what it gives alone, bit by bit.')
    assumptions = ['the inner operations put back the state of the global random generators which they found']

    def preload(self):
        ops.preload()
        omp.lib()

    def generate(self, rng, tier):
        p = ops.draw(rng)
        modes = ['signal', 'signal', 'signal']
        if p['op'] in ('load', 'dump'):
            modes += ['stream'] * 3
        if p['op'] in ops.CALLBACKS:
            modes += ['callback'] * 3
        p['mode'] = rng.choice(modes)
        if p['mode'] == 'stream':
            p['target'] = 'reader'
        if p['mode'] == 'callback' and p['op'] == 'importance':
            p['how'] = 1
        p['opcodes'] = rng.random() < .4
        p['damage'] = rng.random() < .06
        p['at'] = round(rng.random(), 5)
        p['inner'] = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            q = ops.draw(rng)
            if rng.random() < .5:
                q['op'], q['format'], q['target'] = p['op'], p['format'], p['target']
            q['share'] = rng.random() < .5
            if q['share']:
                q['metrics'] = p['metrics']
                for k in ('rows', 'cols', 'nq', 'n_trees', 'size') + (('seed',) if rng.random() < .5 else ()):
                    q[k] = p[k]
            q['place'] = round(rng.random(), 5)
            q['harm'] = round(rng.random(), 3) if rng.random() < .12 else None
            q['fault'] = inject.draw(rng) if rng.random() < .15 else None
            p['inner'].append(q)
        return p

    def execute(self, p, ctx):
        warnings.simplefilter('ignore')
        scratch = [os.path.join(ctx.scratch, 'o%d' % i) for i in range(1 + len(p['inner']))]
        for d in scratch:
            os.mkdir(d)
        alone = forked(lambda: self.outer(p, scratch, False))
        if alone['error'] and not p['damage']:
            raise Violation('raised:' + alone['error'], '%s alone: %s' % (p['op'], alone['error']))
        for i, q in enumerate(p['inner']):
            q['alone'] = None if q['fault'] else forked(lambda: perform(q, scratch[i + 1], self.given(p, scratch[0], q)))
        both = forked(lambda: self.outer(p, scratch, True, alone['n']))
        ctx.steps += len(both['flat']) + len(both['places'])
        what = lambda q: '%s (%s)' % (q['op'], q['kind'] if q['op'] == 'analysis' else q['format'] if q['op'] == 'model' else q['target'])
        ctx.log(what(p), alone['n'], both['places'], both['error'])
        for (i, r), place in zip(both['inner'], both['places']):
            q = p['inner'][i]
            ctx.fault({'signal': 'HANDLER', 'stream': 'STREAM_CALLS', 'callback': 'CALLBACK_CALLS'}[p['mode']])
            if q['fault'] and r['fired']:
                ctx.fault('INNER_' + ('ALLOC' if q['fault']['kind'] == 'alloc' else q['fault']['kind']))
            if q['harm'] is not None:
                ctx.fault('DAMAGED_CONTENT')
            ctx.state(what(p), what(q), place, q['share'])
            if q['alone'] is not None:
                compare('%s within %s at %s' % (what(q), what(p), place), q['alone'], r)
        w = '%s with %s within it at %s' % (what(p), ' and '.join(what(p['inner'][i]) for i, r in both['inner']), ', '.join(both['places']))
        compare(w, alone, both)
        ctx.nontrivial = bool(both['inner'])

    def given(self, p, scratch, q):
        """what an inner operation shares with the outer one"""
        if not q['share']:
            return {}
        job = ops.Operation(p, Ctx(scratch))
        g = job.prepare()
        remove(job)
        return g

    def outer(self, p, scratch, nested, n=0):
        watch()
        omp.start({'threads': 1, 'policy': 'serial', 'p': .001, 'shrink': False, 'oseed': 1})
        m = p['mode']
        job = ops.Operation(p, Ctx(scratch[0]), p['at'] if p['damage'] else None)
        res = {'error': None, 'inner': [], 'places': [], 'flat': []}
        calls = {'n': 0}
        todo = {}
        for i, q in enumerate(p['inner'] if nested and n else []):
            todo.setdefault(int(q['place'] * n), []).append(i)
        g = {}

        def run(k):
            draws = random.getstate(), np.random.get_state()
            for i in todo.pop(k, []):
                res['inner'].append((i, perform(p['inner'][i], scratch[i + 1], g if p['inner'][i]['share'] else {})))
                res['places'].append(where[-1] if m == 'signal' else '%s %d' % (m, k))
            random.setstate(draws[0])
            np.random.set_state(draws[1])
        where = []

        def count():
            k = calls['n']
            calls['n'] += 1
            run(k)
        if m == 'callback':
            def make(spec):
                e = metrics.make(spec)
                f = e.eval_per_query

                def eval_per_query(y, y_pred):
                    if not getattr(self, 'within', False):
                        self.within = True
                        try:
                            count()
                        finally:
                            self.within = False
                    return f(y, y_pred)
                e.eval_per_query = eval_per_query
                return e
            job.make_metric = make

            def learner(a, b, c, d):
                count()
                return d[:, 0] * 2
            job.learner = learner
        g.update(job.prepare())
        before = snap(g)
        if m == 'stream' and 'stream' in g:
            g['stream'].fault = count
        random.seed(p['seed'])
        np.random.seed(p['seed'] & 0xffffff)

        def signal():
            where.append(tracer.seen[-1])
            run(tracer.n - 1)
        tracer = Calls(todo, signal, p['opcodes']) if m == 'signal' else None
        try:
            if tracer:
                with tracer:
                    r = job.work(g)
            else:
                r = job.work(g)
            res['flat'] = flat(plain(p, r), shared=True)
        except Exception as e:
            res['error'] = type(e).__name__
        watch(0)
        sys.settrace(None)
        res['n'] = tracer.n if tracer else calls['n']
        res['flat'] += written(job, g)
        res['flat'].append(('what was given', 'unchanged' if snap(g) == before else 'modified'))
        remove(job)
        return res


def snap(g):
    return [scoring.snap_dataset(g['dataset']) if 'dataset' in g else None, scoring.snap_model(g['model']) if 'model' in g else None]


def watch(seconds=IDLE):
    """ends an operation which waits for ever"""
    used = [time.process_time(), 0]

    def idle(*a):
        t = time.process_time()
        used[:] = t, used[1] + 1 if t - used[0] < .01 else 0
        if used[1] == 3:
            used[1] = 0
            raise Stuck('no progress')
    sig.signal(sig.SIGALRM, idle)
    sig.setitimer(sig.ITIMER_REAL, seconds, seconds)


def compare(what, a, b):
    if a['error'] != b['error']:
        raise Violation('differs', '%s: %s, but %s alone' % (what, b['error'], a['error']))
    for x, y in zip(a['flat'], b['flat']):
        if x != y:
            raise Violation('differs', '%s: %s, but %s alone' % (what, show(y), show(x)))
    if len(a['flat']) != len(b['flat']):
        raise Violation('differs', '%s: more or fewer parts than alone' % what)


def perform(q, scratch, given):
    """the operation q, on some objects of others"""
    job = ops.Operation(q, Ctx(scratch), q.get('harm'))
    if 'dataset' in given and given['dataset'].n_queries < 2:
        given = {}
    g = job.prepare()
    random.seed(q['seed'])
    np.random.seed(q['seed'] & 0xffffff)
    for k in ('dataset', 'model', 'metrics'):
        if k in g and k in given:
            g[k] = given[k]
    if 'y_pred' in g:
        g['y_pred'] = metrics.predictions(q['seed'], len(g['dataset'].y))
    r = {'error': None, 'flat': [], 'fired': False}
    try:
        f = lambda: plain(q, job.work(g))
        if q.get('fault'):
            _, e, r['fired'] = inject.run(q['fault'], f)
        else:
            r['flat'] = flat(f(), shared=True)
    except Exception as e:
        r['error'] = type(e).__name__
    r['flat'] += written(job, g)
    remove(job)
    return r


def plain(q, r):
    if q['op'] == 'node':
        r[2] = None     # the hash of a model is that of its identity
    return r


def written(job, g):
    r = []
    if 'stream' in g and hasattr(g['stream'], 'text'):
        r.append(('stream', g['stream'].text()))
    for x in sorted(os.listdir(job.folder)):
        with open(os.path.join(job.folder, x), 'rb') as f:
            b = f.read()
        r.append((x, len(b), b[:4] + b[8:] if x.endswith('.gz') else b))
    return r


def remove(job):
    import shutil
    shutil.rmtree(job.folder)


CHECK = C32()
