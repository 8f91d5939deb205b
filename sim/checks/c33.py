"""C33: objects and operations can be spread over processes."""
import os
import pickle
import random
import shutil
import signal as sig
import sys
import threading
import warnings

import numpy as np

from sim import inject, metrics, omp, ops, remote
from sim.bits import flat, forked, show
from sim.checks.c32 import Calls, compare, perform, plain, remove, snap, watch, written
from sim.core import Check, Ctx, Violation


class Kill(inject.At):
    """the process is killed at an instruction of the library"""

    def _count(self, frame):
        if self.n == self.at:
            os.kill(os.getpid(), sig.SIGKILL)
        self.n += 1


class C33(Check):
    id = 'C33'
    runs = 4000
    quick_seconds = 120
    lists = ('tasks',)
    ints = ops.INTS
    real = ['rankeval (datasets, models, metrics, scoring, analyses, export)', 'NumPy, xarray, pickle', 'processes, forked or started with another hash seed']
    stub = ['the pool which hands out the work, repeats it when a process is killed, and collects the results']
    measure = 'distinct pairs of operations by the place where the work is handed over'
    level_rule = ('Each seed draws an operation and up to three tasks handed to other processes before it, at any line or instruction of it, or after it: objects (fresh or used before) are '
                  'pickled and received in a process of another hash seed, or the process is forked, from the same thread or from another one; some processes are killed and their task is repeated.')
    assumptions = ['the pickles arrive as they were sent', 'with tasks in forked processes, only the thread which forked exists there, as defined by POSIX; neither do the threads kept by OpenMP (GNU runtime)']

    def preload(self):
        prepare()
        remote.start('sim.checks.c33')

    def generate(self, rng, tier):
        p = ops.draw(rng)
        p['mode'] = rng.choice(['same', 'same', 'thread'])
        p['opcodes'] = rng.random() < .3
        p['warm'] = [rng.choice(['hash', 'score', 'detailed', 'metric']) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        p['results'] = rng.random() < .5
        p['tasks'] = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            q = ops.draw(rng)
            q['share'] = rng.random() < .85
            if q['share']:
                while q['op'] not in ops.WITH_DATASET + ops.WITH_MODEL:
                    q['op'] = rng.choice(ops.OPS)
                q['metrics'] = p['metrics']
                for k in ('rows', 'cols', 'nq', 'n_trees', 'size'):
                    q[k] = p[k]
            q['via'] = rng.choice(['pickle', 'pickle', 'fork'])
            q['proto'] = rng.randrange(2, 6)
            q['place'] = rng.choice([-1, 2, round(rng.random(), 5), round(rng.random(), 5), round(rng.random(), 5)])
            q['kill'] = round(rng.random(), 4) if rng.random() < .15 else None
            p['tasks'].append(q)
        return p

    def execute(self, p, ctx):
        warnings.simplefilter('ignore')
        scratch = [os.path.join(ctx.scratch, 'o%d' % i) for i in range(1 + len(p['tasks']))]
        for d in scratch:
            os.mkdir(d)
        alone = forked(lambda: self.outer(p, scratch, False))
        if alone['error']:
            raise Violation('raised:' + alone['error'], '%s alone: %s' % (p['op'], alone['error']))
        for i, q in enumerate(p['tasks']):
            q['alone'] = forked(lambda: omp.start(ORDERED) or perform(q, scratch[i + 1], given(p, scratch[0]) if q['share'] else {}))
        both = forked(lambda: self.outer(p, scratch, True, alone['n']))
        what = lambda q: '%s (%s)' % (q['op'], q['kind'] if q['op'] == 'analysis' else q['format'] if q['op'] == 'model' else q['target'])
        ctx.steps += len(both['flat']) + len(both['places'])
        ctx.log(what(p), alone['n'], both['places'], both['error'])
        for (i, r), place in zip(both['tasks'], both['places']):
            q = p['tasks'][i]
            ctx.fault({'pickle': 'PICKLED', 'fork': 'FORKED'}[q['via']] + ('_FROM_ANOTHER_THREAD' if p['mode'] == 'thread' else ''))
            if r['killed']:
                ctx.fault('KILLED_AND_REPEATED')
            ctx.state(what(p), what(q), q['via'], place)
            w = '%s %s at %s of %s' % (what(q), {'pickle': 'on what was pickled', 'fork': 'forked'}[q['via']], place, what(p))
            if r['content']:
                raise Violation('content', '%s: %s' % (w, r['content']))
            compare(w, q['alone'], r)
        if both['sent']:
            raise Violation('results', both['sent'])
        w = '%s with %s handed to other processes at %s' % (what(p), ' and '.join(what(p['tasks'][i]) for i, r in both['tasks']), ', '.join(both['places']))
        compare(w, alone, both)
        ctx.nontrivial = bool(both['tasks'])

    def outer(self, p, scratch, tasks, n=0):
        watch()
        omp.start(ORDERED)
        g = given(p, scratch[0])
        job = ops.Operation(p, Ctx(scratch[0]))
        res = {'error': None, 'tasks': [], 'places': [], 'flat': [], 'sent': None}
        todo = {}
        for i, q in enumerate(p['tasks'] if tasks else []):
            todo.setdefault(int(q['place'] * n) if 0 <= q['place'] < 1 else q['place'] if q['place'] < 0 else 1 << 60, []).append(i)
        g.update({k: v for k, v in job.prepare().items() if k not in g})
        before = snap(g)

        def run(k, place):
            draws = random.getstate(), np.random.get_state()
            watch(0)
            for i in todo.pop(k, []):
                res['tasks'].append((i, self.hand(p, p['tasks'][i], scratch[i + 1], g)))
                res['places'].append(place)
            watch()
            random.setstate(draws[0])
            np.random.set_state(draws[1])
        run(-1, 'the start')
        random.seed(p['seed'])
        np.random.seed(p['seed'] & 0xffffff)
        reached, go = threading.Semaphore(0), threading.Semaphore(0)
        thread = p['mode'] == 'thread'

        def at():
            if thread:
                reached.release()
                go.acquire()
            else:
                run(tracer.n - 1, tracer.seen[-1])
        tracer = Calls([k for k in todo if 0 <= k < 1 << 60], at, p['opcodes'])
        out = {}

        def work():
            try:
                with tracer:
                    r = job.work(g)
                sys.settrace(None)
                out['r'] = plain(p, r)
            except Exception as e:
                res['error'] = type(e).__name__
            sys.settrace(None)
            out['done'] = True
            reached.release()
        if thread:
            t = threading.Thread(target=work)
            t.start()
            while True:
                reached.acquire()
                if 'done' in out:
                    break
                run(tracer.n - 1, tracer.seen[-1])
                go.release()
            t.join()
        else:
            work()
        run(1 << 60, 'the end')
        if res['error'] is None:
            res['flat'] = flat(out['r'], shared=True)
            if p['results'] and tasks and p['op'] not in ('node',):
                # what an operation gave can be sent as well
                try:
                    b = pickle.dumps({'results': out['r'], 'p': None})
                except Exception as e:
                    b = None
                    res['sent'] = 'the results of %s: not pickled: %r' % (p['op'], e)
                got = b and remote.ask(b)
                if b and (got is None or got['flat'] != res['flat']):
                    res['sent'] = 'the results of %s, pickled: %s' % (p['op'], diff(res['flat'], got and got['flat']))
        watch(0)
        res['n'] = tracer.n
        res['flat'] += written(job, g)
        res['flat'].append(('what was given', 'unchanged' if snap(g) == before else 'modified'))
        remove(job)
        return res

    def hand(self, p, q, scratch, g):
        """the task, performed by another process"""
        objects = {k: g[k] for k in ('dataset', 'model', 'metrics') if k in g} if q['share'] else {}
        r, killed = None, False
        for kill in ([q['kill']] if q['kill'] is not None else []) + [None]:
            shutil.rmtree(scratch)
            os.mkdir(scratch)
            if q['via'] == 'pickle':
                try:
                    objs = pickle.dumps(objects, protocol=q['proto'])
                except Exception as e:
                    return {'error': None, 'flat': [], 'content': 'not pickled: %r' % e, 'killed': False}
                b = pickle.dumps({'objects': objs, 'p': p, 'q': {k: v for k, v in q.items() if k != 'alone'}, 'scratch': scratch, 'kill': kill})
                r = remote.ask(b)
            else:
                r = fork(lambda: task(p, q, scratch, objects, kill))
            killed = killed or r is None
        if r is None:
            r = {'error': None, 'flat': [], 'content': 'the process died'}
        return dict(r, killed=killed)


ORDERED = {'threads': 3, 'policy': 'ordered', 'p': .001, 'shrink': False, 'oseed': 1}  # a team of threads one after the other


def diff(a, b):
    for x, y in zip(a, b or []):
        if x != y:
            return '%s instead of %s' % (show(y), show(x))
    return 'nothing' if b is None else '%d parts instead of %d' % (len(b), len(a))


def prepare():
    ops.preload()
    omp.lib()
    for m in ('copyreg', 'numpy.core.multiarray', 'multiprocessing.reduction'):
        __import__(m)


def given(p, scratch, warm=True):
    """the objects of the operation, some used before"""
    job = ops.Operation(p, Ctx(scratch))
    g = {k: v for k, v in job.prepare().items() if k in ('dataset', 'model', 'metrics')}
    remove(job)
    for w in p['warm'] if warm else []:
        d, m = g.get('dataset'), g.get('model')
        if d is None:
            continue
        if w == 'hash':
            hash(d)
        elif w == 'metric':
            for e in g.get('metrics', []):
                e.eval(d, metrics.predictions(p['seed'] + 1, len(d.y)))
        elif m is not None:
            m.score(d, detailed=w == 'detailed', cache=True)
    return g


def task(p, q, scratch, objects, kill):
    """the operation q on the objects received, after comparing these with objects made here"""
    watch()
    omp.start(ORDERED)
    try:
        return examined(p, q, scratch, objects, kill)
    except Exception as e:
        return {'error': None, 'flat': [], 'content': 'raised %r' % e}
    finally:
        watch(0)


def examined(p, q, scratch, objects, kill):
    content = None
    if kill is not None:
        job = forked(lambda: counted(q, scratch, objects))
        with Kill(int(kill * job), None, False):
            perform(q, scratch, objects)
    if objects:
        own = given(p, scratch, False)
        if 'model' in own:
            own['model'].file, own['model'].name = objects['model'].file, objects['model'].name
        for k in own:
            a, b = flat(own[k], shared=True), flat(objects[k], shared=True)
            if a != b:
                content = 'the %s: %s' % (k, diff(a, b))
        if 'dataset' in own:
            a, b = own['dataset'], objects['dataset']
            if not (a == b and b == a) or a != b or hash(a) != hash(b) or {a: 1}.get(b) != 1:
                content = 'the dataset is not that which is made here from the same data (hashes %d and %d)' % (hash(b), hash(a))
            for c in (True, False) if 'model' in own else []:
                for detailed in (False, True):
                    x, y = own['model'].score(a, detailed=detailed), objects['model'].score(b, detailed=detailed, cache=c)
                    if flat(x) != flat(y):
                        content = 'the scores: %s' % diff(flat(x), flat(y))
    r = perform(q, scratch, objects)
    return {'error': r['error'], 'flat': r['flat'], 'content': content}


def counted(q, scratch, objects):
    c = inject.At()
    with c:
        perform(q, scratch, objects)
    return c.n


def serve(request):
    try:
        d = pickle.loads(request)
        objects = pickle.loads(d.get('objects', pickle.dumps({})))
    except Exception as e:
        return {'error': None, 'flat': [], 'content': 'not received: %r' % e}
    if d['p'] is None:
        return {'flat': flat(d['results'], shared=True)}
    return task(d['p'], d['q'], d['scratch'], objects, d['kill'])


def fork(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            sys.settrace(None)
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(9)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else None


CHECK = C33()
