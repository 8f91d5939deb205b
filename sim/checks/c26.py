"""C26: feature importance under any metric follows the metric, split after split."""
import warnings
from fractions import Fraction

import numpy as np

from sim import inject, metrics, omp, sched, scoring
from sim.checks.c14 import build_sets, draw_sets, enlarge
from sim.checks.c18 import probe
from sim.core import Check, Invalid, Violation

sched.install()
F32 = np.float32
CLASSES = ('NDCG', 'NDCG', 'NDCG', 'DCG', 'ERR', 'MAP', 'MRR', 'Pfound', 'RBP', 'Precision', 'Recall', 'PrecisionMax')


def make(spec):
    return probe(spec[1]['w']) if spec[0] == 'Probe' else metrics.make(spec)


def splits(trees, X, y, how):
    """every split, level by level: (feature, predictions before, predictions after). how: the arithmetic"""
    n = len(y)
    if how == 'exact':
        y = [Fraction(float(v)) for v in y]
        pred = [Fraction(0)] * n
    else:
        y = [float(v) for v in y]
        pred = [0.] * n
    low = (lambda v: float(F32(v))) if how == 'single' else (lambda v: v)
    out = []
    as_floats = lambda a, b: np.array([float(u + v) for u, v in zip(a, b)])
    for t in trees:
        target = [a - b for a, b in zip(y, pred)]
        if how == 'exact':
            mean = lambda docs: sum((target[d] for d in docs), Fraction(0)) / len(docs)
        else:
            mean = lambda docs: low(float(np.mean(np.array([target[d] for d in docs], dtype=np.float64))))
        level = [mean(range(n))] * n
        nodes = [(0, list(range(n)))] if t.feature[0] >= 0 else []
        while nodes:
            below, deeper = list(level), []
            for i, docs in nodes:
                f = t.feature[i]
                sides = [d for d in docs if X[d, f] <= t.value[i]], [d for d in docs if not X[d, f] <= t.value[i]]
                after = [low(v) for v in level]
                for s in sides:
                    if s:
                        v = mean(s)
                        for d in s:
                            after[d] = v
                            below[d] = v
                out.append((f, as_floats([low(v) for v in level], pred), as_floats(after, pred)))
                deeper += [(c, s) for c, s in zip((t.left[i], t.right[i]), sides) if t.feature[c] >= 0]
            level, nodes = below, deeper
        w = Fraction(float(t.weight)) if how == 'exact' else float(t.weight)
        pred = [a + b * w for a, b in zip(pred, level)]
    return out


class C26(Check):
    id = 'C26'
    runs = 1600
    quick_seconds = 150
    lists = ('ops', 'decs', 'sets', 'metrics', 'models')
    real = ['rankeval.analysis.feature', 'rankeval.metrics', 'Dataset, RTEnsemble', 'NumPy, SciPy, xarray', 'threads of CPython']
    stub = ['user interrupts and lack of memory raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)',
            'the order in which threads run (one at a time, preempted at lines or bytecode instructions of the library)', 'a metric failing at a chosen evaluation']
    measure = 'distinct histories (operations, outcomes and places of the faults) and interleavings'
    level_rule = ('Each seed draws models, datasets, metrics (of the library, or revealing every prediction) and a history of analyses, evaluations and '
                  'scorings, disturbed or run by threads sharing the metric; every result is recomputed split by split from the generated trees.')
    assumptions = ['the values of the metric on given predictions are those of a fresh metric of the library', 'histories in which rounding alone can reorder '
                   'the documents (single, double and exact arithmetic give different values) are skipped', 'importance is checked when normalised only if some feature has a positive one']

    def preload(self):
        import rankeval.analysis.feature  # noqa
        import rankeval.metrics  # noqa
        omp.lib()

    def generate(self, rng, tier):
        n_feat = rng.randrange(1, 6)
        p = {'models': [], 'seed': rng.randrange(1 << 30), 'omp': omp.draw(rng)}
        while not p['models'] or (len(p['models']) < 2 and rng.random() < .5):
            m = scoring.draw_model(rng, 'small', ('QuickRank', 'QuickRank', 'LightGBM', 'ScikitLearn'))
            m.update(n_feat=n_feat, n_trees=rng.choice([1, 2, 2, 3, 4]), size=rng.randrange(1, 9), leaf=rng.choice([0, 0, .3]),
                     keep=m['keep'] if m['how'] == 'copy' else None)
            p['models'].append(m)
        p.update(draw_sets(rng, 'small', n_feat, 2))
        p['data']['rows'] = min(p['data']['rows'], 16)
        p['metrics'] = [['Probe', {'w': rng.randrange(1, 7)}] if rng.random() < .35 else metrics.draw(rng, CLASSES) for _ in range(rng.randrange(1, 3))]
        imp = lambda: {'op': 'imp', 'm': rng.randrange(2), 'set': rng.randrange(2), 'e': rng.randrange(2), 'normalize': rng.random() < .3}
        ops = []
        for _ in range(rng.randrange(1, 6)):
            k = rng.random()
            if k < .1:
                o = {'op': 'score', 'm': rng.randrange(2), 'set': rng.randrange(2), 'detailed': rng.random() < .5}
            elif k < .25:
                o = {'op': 'eval', 'e': rng.randrange(2), 'set': rng.randrange(2), 'pred': rng.randrange(1 << 30)}
            elif k < .32:
                o = {'op': 'mse', 'm': rng.randrange(2), 'set': rng.randrange(2)}
            else:
                o = imp()
                k = rng.random()
                if k < .3:
                    o['fault'] = inject.draw(rng)
                elif k < .4:
                    o['fails'] = rng.randrange(12)
            ops.append(o)
        if rng.random() < .4:
            ops.insert(rng.randrange(len(ops) + 1), {'op': 'threads', 'sched': sched.draw(rng), 'bodies': [imp() for _ in range(rng.randrange(2, 4))]})
        p['ops'] = ops
        p['decs'] = None
        enlarge(rng, p, 3)
        return p

    def execute(self, p, ctx):
        from rankeval.analysis.feature import feature_importance
        from rankeval.dataset import Dataset
        if not p['sets'] or not p['models'] or not p['metrics']:
            raise Invalid('empty')
        warnings.simplefilter('ignore')
        omp.start(p['omp'])
        omp.lib().simomp_disable()
        built = [scoring.make_model(m, ctx.scratch, name='model%d' % i) for i, m in enumerate(p['models'])]
        ms = [b[0] for b in built]
        arrays = build_sets(p)
        new = lambda k: Dataset(arrays[k][0].copy(), arrays[k][1].copy(), arrays[k][2].copy())
        sets = [new(k) for k in range(len(arrays))]
        nm, nd, ne = len(ms), len(sets), len(p['metrics'])
        key = lambda o: (o['m'] % nm, o['set'] % nd, o['e'] % ne)
        wanted = set()
        for o in p['ops']:
            for b in ([o] if o['op'] == 'imp' else o.get('bodies', ())):
                wanted.add(key(b))
        wanted.add((0, 0, 0))

        def table():
            t = {}
            for m, d in {k[:2] for k in wanted}:
                how = {h: splits(built[m][1], arrays[d][0], arrays[d][1], h) for h in ('single', 'double', 'exact')}
                for e in {k[2] for k in wanted if k[:2] == (m, d)}:
                    fresh, ds, memo = make(p['metrics'][e]), new(d), {}

                    def value(v):
                        b = v.tobytes()
                        if b not in memo:
                            memo[b] = float(fresh.eval(ds, v.copy())[0])
                        return memo[b]
                    rows = {h: [(f, value(a), value(b)) for f, a, b in s] for h, s in how.items()}
                    near = all(abs(r[1] - x[1]) + abs(r[2] - x[2]) <= 1e-6 * (abs(r[1]) + abs(r[2])) + 1e-7
                               for h in ('single', 'double') for r, x in zip(rows['exact'], rows[h]))
                    t[m, d, e] = (rows['exact'], near)
            return t
        try:
            values = metrics.isolated(table)
        except EOFError:
            raise Invalid('a metric failed')
        if not all(near for rows, near in values.values()):
            raise Invalid('rounding decides the order of the documents')
        es = [make(s) for s in p['metrics']]
        mine = [scoring.snap_model(m) for m in ms]
        snaps = [scoring.snap_dataset(d) for d in sets]
        omp.lib().simomp_enable()
        kept = []

        def verify(what, o, r, norm):
            m, d, e = key(o)
            nf = arrays[d][0].shape[1]
            imp, mag, cnt = np.zeros(nf), np.zeros(nf), np.zeros(nf, dtype=int)
            for f, a, b in values[m, d, e][0]:
                imp[f] += a - b
                mag[f] += abs(a) + abs(b)
                cnt[f] += 1
            tol = 3e-5 * mag + 1e-5
            what = '%s (model %d, dataset %d, %s)' % (what, m, d, p['metrics'][e])
            if list(r.dims) != ['type', 'feature'] or r.coords['type'].values.tolist() != ['importance', 'count'] or r.values.shape != (2, nf):
                raise Violation('shape', what + ': unexpected shape or coordinates')
            gi, gc = np.asarray(r.sel(type='importance').values, dtype=np.float64), np.asarray(r.sel(type='count').values)
            if not (gc == cnt).all():
                f = int(np.where(gc != cnt)[0][0])
                raise Violation('count', '%s: feature %d counted %r times instead of %d' % (what, f, gc[f], cnt[f]))
            want, t = imp, tol
            if norm:
                top = imp.max()
                want, t = imp / top, 3 * (tol / top + np.abs(imp) * tol.max() / top ** 2)
            bad = ~(np.abs(gi - want) <= t)
            if bad.any():
                f = int(np.where(bad)[0][0])
                raise Violation('importance', '%s: feature %d has %r instead of %r' % (what, f, gi[f], want[f]))
            kept.append((what, r.values, r.values.copy()))

        def can_norm(o):
            m, d, e = key(o)
            imp, mag = np.zeros(arrays[d][0].shape[1]), np.zeros(arrays[d][0].shape[1])
            for f, a, b in values[m, d, e][0]:
                imp[f] += a - b
                mag[f] += abs(a) + abs(b)
            return imp.max() > 30 * (3e-5 * mag.max() + 1e-5)

        def call(o, metric=None):
            m, d, e = key(o)
            return feature_importance(ms[m], sets[d], metric=metric or es[e], normalize=bool(o.get('normalize') and can_norm(o)))

        def checked(what, o):
            norm = bool(o.get('normalize') and can_norm(o))
            verify(what, o, call(o), norm)
        for i, o in enumerate(p['ops']):
            what = 'operation %d' % i
            ctx.steps += 1
            if o['op'] == 'score':
                ms[o['m'] % nm].score(sets[o['set'] % nd], detailed=o['detailed'])
            elif o['op'] == 'eval':
                d = o['set'] % nd
                metrics.attempt(lambda: es[o['e'] % ne].eval(sets[d], metrics.predictions(o['pred'], len(arrays[d][1]))))
            elif o['op'] == 'mse':
                feature_importance(ms[o['m'] % nm], sets[o['set'] % nd], normalize=False)
            elif o['op'] == 'threads':
                bodies = []
                for t, b in enumerate(o['bodies']):
                    def body(t=t, b=b):
                        try:
                            checked('%s, thread %d' % (what, t), b)
                        except Violation:
                            raise
                        except Exception as e:
                            raise Violation('failed', '%s, thread %d failed: %r' % (what, t, e))
                    bodies.append(body)
                err = sched.make(o['sched'], p['decs']).run(bodies, ctx)
                if err is not None:
                    raise err
            elif o.get('fault'):
                norm = bool(o.get('normalize') and can_norm(o))
                r, err, fired = inject.run(o['fault'], lambda: call(o), ctx)
                if err is None:
                    verify(what, o, r, norm)
                else:
                    ctx.log(i, type(err).__name__)
            elif 'fails' in o:
                # a metric of the user, failing after some evaluations
                metric, left = es[key(o)[2]], [o['fails']]

                class Failing(type(metric)):
                    def eval(self, dataset, y_pred):
                        left[0] -= 1
                        if left[0] < 0:
                            raise ArithmeticError('injected')
                        return metric.eval(dataset, y_pred)
                norm = bool(o.get('normalize') and can_norm(o))
                f = Failing.__new__(Failing)
                f.__dict__.update(metric.__dict__)
                try:
                    r = call(o, f)
                except ArithmeticError:
                    ctx.fault('metric_failure')
                    ctx.log(i, 'metric failed')
                else:
                    if left[0] < 0:
                        raise Violation('swallowed', what + ': the failure of the metric was ignored')
                    verify(what, o, r, norm)
            else:
                checked(what, o)
        for o in [o for o in p['ops'] if o['op'] == 'imp'][:2] + [{'m': 0, 'set': 0, 'e': 0}]:
            checked('at the end', dict(o, normalize=False))
        for what, a, b in kept:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation('altered', 'the result of %s changed afterwards' % what)
        if [scoring.snap_model(m) for m in ms] != mine or [scoring.snap_dataset(d) for d in sets] != snaps:
            raise Violation('modified', 'a model or a dataset was modified')
        omp.stop(ctx, schedule=False)
        ctx.nontrivial = True
        ctx.state('history', [(o['op'], (o.get('fault') or {}).get('kind'), o.get('fails')) for o in p['ops']], ctx.sched)


CHECK = C26()
