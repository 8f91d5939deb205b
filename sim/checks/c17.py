"""C17: threads can share a metric."""
import warnings

import numpy as np

from sim import metrics, sched, scoring
from sim.checks.c14 import build_sets, draw_sets, enlarge
from sim.core import Check, Invalid, Violation

sched.install()


class C17(Check):
    id = 'C17'
    runs = 4000
    quick_seconds = 150
    lists = ('threads', 'decs', 'sets', 'metrics')
    real = ['rankeval.metrics (all the metrics)', 'Dataset (hash, equality, query_iterator)', 'NumPy, SciPy', 'threads of CPython']
    stub = ['the order in which threads run (one at a time, preempted at lines or bytecode instructions of the library)',
            'locks of the threading module']
    measure = 'distinct interleavings (hash of the sequence of scheduling decisions)'
    level_rule = ('Each seed draws one or two metrics, datasets, two to four threads with up to five evaluations each, and a scheduling policy '
                  'at line or bytecode granularity; every value is compared with the one of a fresh metric in a fresh process.')
    assumptions = ['callers do not modify returned arrays, datasets and predictions', 'a preemption happens between two bytecode instructions of '
                   'the library: native calls are atomic with respect to the other threads']

    def preload(self):
        import rankeval.metrics  # noqa
        import rankeval.dataset  # noqa

    def generate(self, rng, tier):
        p = {'metrics': metrics.draw_some(rng, 2)}
        p.update(draw_sets(rng, 'small', rng.randrange(1, 4), 3))
        p['data']['rows'] = min(p['data']['rows'], 30)
        p['seed'] = rng.randrange(1 << 30)
        p['preds'] = [rng.randrange(1 << 30) for _ in range(3)]
        p['shared'] = rng.random() < .5        # the threads evaluate the same arrays of predictions
        p['scales'] = [rng.choice([None, None, 1, 2, 3]) for _ in range(3)]
        p['sched'] = sched.draw(rng)
        p['warm'] = rng.random() < .25
        p['threads'] = [[{'op': 'eval' if rng.random() < .85 else 'query', 'm': 0 if rng.random() < .7 else 1, 'set': rng.randrange(3),
                          'pred': rng.randrange(3), 'q': rng.randrange(20), 'own': rng.random() < .3}
                         for _ in range(rng.randrange(1, 5))] for _ in range(rng.randrange(2, 5))]
        p['decs'] = None
        enlarge(rng, p)
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        if not p['sets'] or not p['metrics'] or not p['threads']:
            raise Invalid('empty')
        arrays = metrics.scaled(build_sets(p), p['scales'])
        new = lambda k: Dataset(arrays[k][0].copy(), arrays[k][1].copy(), arrays[k][2].copy())
        pred = lambda k, j: metrics.predictions(p['preds'][j], len(arrays[k][1]))
        nm, ns = len(p['metrics']), len(arrays)
        bounds = []
        for X, y, q in arrays:
            cut = [0] + [i for i in range(1, len(q)) if q[i] != q[i - 1]] + [len(q)]
            bounds.append(list(zip(cut, cut[1:])))

        def call(m, d, k, y_pred, o):
            if o['op'] == 'query':
                a, b = bounds[k][o['q'] % len(bounds[k])]
                return m.eval_per_query(d.y[a:b], y_pred[a:b])
            return m.eval(d, y_pred)

        def key(o):
            k = o['set'] % ns
            q = o['q'] % len(bounds[k]) if o['op'] == 'query' else None
            return o['m'] % nm, k, o['pred'], q
        refs = {}
        finals = [{'op': 'eval', 'm': i % nm, 'set': i, 'pred': i % 3} for i in range(max(nm, ns))]
        for o in [o for t in p['threads'] for o in t] + finals:
            if key(o) not in refs:
                m, k, j, q = key(o)
                refs[key(o)] = metrics.isolated(lambda: metrics.attempt(lambda: call(metrics.make(p['metrics'][m]), new(k), k, pred(k, j), o)))
                if refs[key(o)][0] == 'raised':
                    raise Violation('failed', 'a fresh %s on dataset %d raised %s' % (p['metrics'][m], k, refs[key(o)][1]))
        ms = [metrics.make(s) for s in p['metrics']]
        sets = [new(k) for k in range(ns)]
        own = [[new(o['set'] % ns) if o['own'] else None for o in t] for t in p['threads']]
        snaps = [scoring.snap_dataset(d) for d in sets]
        warnings.simplefilter('ignore')
        if p['warm']:
            metrics.attempt(lambda: ms[0].eval(sets[0], pred(0, 0)))
        kept = []
        both = [[pred(k, j) for j in range(3)] for k in range(ns)]

        def one(what, o, d):
            m, k, j, q = key(o)
            before = pred(k, j)
            y_pred = both[k][j] if p['shared'] else before.copy()
            try:
                r = call(ms[m], d, k, y_pred, o)
                v = metrics.norm(r)
            except Exception as e:
                raise Violation('failed', '%s failed: %r' % (what, e))
            if not metrics.same(v, refs[key(o)]):
                raise Violation('value', '%s on dataset %d returned %s, a fresh metric %s' % (what, k, repr(v)[:300], repr(refs[key(o)])[:300]))
            if not np.array_equal(y_pred, before):
                raise Violation('predictions', '%s modified the predictions' % what)
            if isinstance(r, tuple):
                kept.append((what, r[1], np.array(r[1], copy=True)))

        def thread(t, ops):
            def body():
                for i, o in enumerate(ops):
                    one('thread %d, call %d (%s %s)' % (t, i, o['op'], p['metrics'][o['m'] % nm]), o, own[t][i] or sets[o['set'] % ns])
            return body
        s = sched.make(p['sched'], p['decs'])
        err = s.run([thread(t, ops) for t, ops in enumerate(p['threads'])], ctx)
        if err is not None:
            raise err
        for o in finals:
            one('after the threads, %s' % p['metrics'][o['m'] % nm], o, sets[o['set'] % ns])
        for what, a, b in kept:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation('altered', 'the result of %s changed afterwards' % what)
        if [scoring.snap_dataset(d) for d in sets] != snaps:
            raise Violation('modified', 'a dataset was modified')


CHECK = C17()
