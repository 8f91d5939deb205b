"""C16: the value of a metric does not depend on what the metric evaluated before."""
import warnings

import numpy as np

from sim import data, inject, metrics, scoring
from sim.checks.c14 import build_sets, draw_sets, enlarge
from sim.core import Check, Invalid, Violation


class C16(Check):
    id = 'C16'
    runs = 3500
    quick_seconds = 150
    lists = ('ops', 'sets', 'metrics')
    real = ['rankeval.metrics (all the metrics)', 'Dataset (hash, equality, query_iterator)', 'NumPy, SciPy']
    stub = ['user interrupts and lack of memory raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)']
    measure = 'distinct histories (operations, outcomes and places of the faults)'
    level_rule = ('Each seed draws one to three metrics, up to four look-alike datasets, predictions and a history of up to sixteen evaluations, '
                  'some of them disturbed or failing; every value is compared with the one of a fresh metric in a fresh process.')
    assumptions = ['callers do not modify returned arrays, datasets and predictions', 'an interrupt is delivered between two bytecode instructions '
                   'of the library', 'the reference is the same formula on fresh objects: wrong formulas are out of scope']

    def preload(self):
        import rankeval.metrics  # noqa
        import rankeval.dataset  # noqa

    def generate(self, rng, tier):
        p = {'metrics': metrics.draw_some(rng)}
        p.update(draw_sets(rng, 'small', rng.randrange(1, 4)))
        p['data']['rows'] = min(p['data']['rows'], 40)
        p['seed'] = rng.randrange(1 << 30)
        p['preds'] = [rng.randrange(1 << 30) for _ in range(3)]
        p['buffers'] = rng.random() < .5       # the caller writes its predictions in the same memory again
        p['scales'] = [rng.choice([None, None, 1, 2, 3]) for _ in range(4)]
        ops = []
        for _ in range(rng.randrange(2, 17)):
            k = rng.random()
            o = {'m': rng.randrange(3), 'set': rng.randrange(4), 'pred': rng.randrange(3)}
            if k < .07:
                o['op'] = 'renew'
            elif k < .16:
                o['op'], o['to'] = 'replace', rng.randrange(4)
            elif k < .22:
                o['op'] = 'bad'
            elif k < .28:
                o['op'] = 'fresh'
            else:
                o['op'] = 'eval' if k < .8 else 'query'
                o['q'] = rng.randrange(20)
                if rng.random() < .35:
                    o['fault'] = inject.draw(rng)
            ops.append(o)
            if o['op'] == 'replace' and rng.random() < .6:
                # the same evaluation before and after the dataset changed
                e = dict(o, op='eval' if rng.random() < .7 else 'query', q=rng.randrange(20))
                ops[-1:] = [e, o, dict(e)]
        p['ops'] = ops
        enlarge(rng, p)
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        if not p['sets'] or not p['metrics']:
            raise Invalid('empty')
        arrays = metrics.scaled(build_sets(p), p['scales'])
        new = lambda k: Dataset(arrays[k][0].copy(), arrays[k][1].copy(), arrays[k][2].copy())
        pred = lambda k, j: metrics.predictions(p['preds'][j], len(arrays[k][1]))
        nm, ns = len(p['metrics']), len(arrays)
        bounds = []
        for X, y, q in arrays:
            cut = [0] + [i for i in range(1, len(q)) if q[i] != q[i - 1]] + [len(q)]
            bounds.append(list(zip(cut, cut[1:])))

        def call(m, d, k, y_pred, o):
            if o['op'] == 'query':
                a, b = bounds[k][o['q'] % len(bounds[k])]
                return m.eval_per_query(d.y[a:b], y_pred[a:b])
            return m.eval(d, y_pred)

        holds = list(range(ns))         # what the slots hold: a dataset may take the place (and the memory) of another

        def key(o, k=None):
            k = o['set'] % ns if k is None else k
            q = o['q'] % len(bounds[k]) if o['op'] == 'query' else None
            return o['m'] % nm, k, o['pred'], q
        # every value by a fresh metric in a fresh process, before anything is evaluated in this one
        refs = {}

        def ref(o, k):
            if key(o, k) not in refs:
                m, k, j, q = key(o, k)
                def compute():
                    spec, d = p['metrics'][m], new(k)
                    r = metrics.attempt(lambda: call(metrics.make(spec), d, k, pred(k, j), o))
                    return r, metrics.consistent(spec, r, metrics.make(spec), d, pred(k, j), bounds[k])
                r, e = metrics.isolated(compute)
                if r[0] == 'raised':
                    raise Violation('failed', 'a fresh %s on dataset %d raised %s' % (p['metrics'][m], k, r[1]))
                if e:
                    raise Violation('queries', '%s on dataset %d: %s' % (p['metrics'][m], k, e))
                refs[key(o, k)] = r
            return refs[key(o, k)]
        finals = [{'op': 'eval', 'm': i % nm, 'set': i, 'pred': i % 3} for i in range(max(nm, ns))]
        for o in p['ops'] + finals:
            if o['op'] == 'replace':
                holds[o['set'] % ns] = o['to'] % ns
            elif o['op'] in ('eval', 'query'):
                ref(o, holds[o['set'] % ns])
        holds = list(range(ns))
        buffers = {}

        def scores(k, j):
            y = pred(k, j)
            if p['buffers']:
                b = buffers.setdefault((k, y.dtype), y)
                b[:] = y
                return b
            return y
        ms = [metrics.make(s) for s in p['metrics']]
        sets = [new(k) for k in range(ns)]
        snaps = [scoring.snap_dataset(d) for d in sets]
        kept = []
        for i, o in enumerate(p['ops'] + finals):
            slot = o['set'] % ns
            m, k, j = o['m'] % nm, holds[slot], o['pred']
            what = 'call %d (%s %s)' % (i, o['op'], p['metrics'][m])
            ctx.steps += 1
            if o['op'] in ('renew', 'replace'):
                if scoring.snap_dataset(sets[slot]) != snaps[slot]:
                    raise Violation('modified', 'dataset %d was modified' % k)
                if o['op'] == 'replace':
                    k = holds[slot] = o['to'] % ns
                sets[slot] = None
                sets[slot] = new(k)
                snaps[slot] = scoring.snap_dataset(sets[slot])
                continue
            if o['op'] == 'fresh':
                ms[m] = None
                ms[m] = metrics.make(p['metrics'][m])
                continue
            y_pred = scores(k, j)
            before = y_pred.copy()
            if o['op'] == 'bad':
                # predictions of the wrong length: whatever happens is fine, but nothing of it may remain
                bad = y_pred[:len(y_pred) // 2] if o['pred'] else None
                r = metrics.attempt(lambda: ms[m].eval(sets[slot], bad))
                ctx.log('bad', r[0])
                ctx.fault('BAD_CALL')
                if not np.array_equal(y_pred, before):
                    raise Violation('predictions', '%s (failed) modified the predictions' % what)
                continue
            f = o.get('fault')

            def fn():
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return call(ms[m], sets[slot], k, y_pred, o)
            if f:
                r, err, fired = inject.run(f, fn, ctx)
                if err is not None:
                    ctx.log(what, type(err).__name__)
                    if not np.array_equal(y_pred, before):
                        raise Violation('predictions', '%s, which raised %s, modified the predictions' % (what, type(err).__name__))
                    continue
            else:
                try:
                    r = fn()
                except Exception as e:
                    raise Violation('failed', '%s on dataset %d raised %r' % (what, k, e))
            v = metrics.norm(r)
            ctx.log(what, 'ok', v[1])
            if not metrics.same(v, ref(o, k)):
                raise Violation('value', '%s on dataset %d returned %s, a fresh metric %s' % (what, k, repr(v)[:300], repr(ref(o, k))[:300]))
            if not np.array_equal(y_pred, before):
                raise Violation('predictions', '%s modified the predictions' % what)
            if isinstance(r, tuple):
                kept.append((what, r[1], np.array(r[1], copy=True)))
        for what, a, b in kept:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation('altered', 'the result of %s changed afterwards' % what)
        if [scoring.snap_dataset(d) for d in sets] != snaps:
            raise Violation('modified', 'a dataset was modified')
        ctx.nontrivial = True
        ctx.state('history', p['metrics'], [(o['op'], o['m'] % nm, o['set'] % ns, (o.get('fault') or {}).get('kind')) for o in p['ops']])


CHECK = C16()
