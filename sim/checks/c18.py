"""C18: analyses give the same answers with warm or cold caches, and change nothing."""
import math
import random
import warnings

import numpy as np

from sim import inject, metrics, omp, scoring
from sim.checks.c14 import build_sets, draw_sets, enlarge
from sim.core import Check, Invalid, Violation

F32 = np.float32
RANKING = ('NDCG', 'DCG', 'ERR', 'MAP', 'MRR', 'Pfound', 'RBP', 'Precision', 'Recall')
KINDS = ('model', 'tree', 'contribution', 'query', 'class', 'relevance', 'confusion')


def make(spec):
    return probe(spec[1]['w']) if spec[0] == 'Probe' else metrics.make(spec)


def probe(w):
    """a metric of the user, revealing every predicted score"""
    from rankeval.metrics import Metric

    class Probe(Metric):
        def __init__(self):
            super(Probe, self).__init__('Probe')

        def eval(self, dataset, y_pred):
            return super(Probe, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return float(sum((1 + (i * w) % 7) * float(v) for i, v in enumerate(y_pred))) / 8

        def __str__(self):
            return self.name
    return Probe()


def near(a, b, tol=1e-6):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1, abs(a), abs(b))


DEFAULTS = {'cache': False, 'step': 10, 'bins': None, 'start': None, 'end': None, 'skip_same_label': False}


class C18(Check):
    id = 'C18'
    runs = 2500
    quick_seconds = 150
    lists = ('ops', 'sets', 'metrics', 'models')
    real = ['rankeval.analysis.effectiveness (all the functions)', 'rankeval.metrics', 'RTEnsemble.score, Scorer, Dataset',
            'rankeval.scoring (compiled)', 'NumPy, SciPy, xarray']
    stub = ['user interrupts and lack of memory raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)',
            'the OpenMP runtime (fibers scheduled by the seed)']
    measure = 'distinct histories (analyses, options, outcomes and places of the faults)'
    level_rule = ('Each seed draws up to three models, three look-alike datasets, metrics and a history of up to nine analyses, scorings and cache '
                  'operations, some of them disturbed; every value is compared with the one recomputed from the generated trees.')
    assumptions = ['sums of the generated values are exact in single precision', 'callers do not modify returned arrays, models and datasets',
                   'values of metrics are recomputed by fresh metric objects', 'labels are non-negative integers',
                   'the position of the bins, but not the label printed for them, is checked']

    def preload(self):
        import rankeval.analysis.effectiveness  # noqa
        import rankeval.metrics  # noqa
        omp.lib()

    def generate(self, rng, tier):
        n_feat = rng.randrange(1, 7)
        p = {'models': [], 'seed': rng.randrange(1 << 30), 'omp': omp.draw(rng)}
        while not p['models'] or (len(p['models']) < 3 and rng.random() < .55):
            m = scoring.draw_model(rng, 'small', ('QuickRank', 'QuickRank', 'QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn'))
            m.update(n_feat=n_feat, n_trees=rng.choice([1, 2, 3, 4, 5, 7, 10, 11, 20, 23]), keep=m['keep'] if m['how'] == 'copy' else None)
            p['models'].append(m)
        p.update(draw_sets(rng, 'small', n_feat, 3))
        p['data']['rows'] = min(p['data']['rows'], 24)
        p['metrics'] = [rng.choice([['Probe', {'w': rng.randrange(1, 7)}], metrics.draw(rng)]) for _ in range(rng.randrange(1, 4))]
        ops = []
        for _ in range(rng.randrange(1, 10)):
            k = rng.random()
            some = lambda n: rng.sample(range(n), rng.randrange(1, n + 1))
            if k < .06:
                o = {'op': 'clear', 'm': rng.randrange(3)}
            elif k < .16:
                o = {'op': 'score', 'm': rng.randrange(3), 'set': rng.randrange(3), 'detailed': rng.random() < .6, 'cache': rng.random() < .8}
            elif k < .22:
                o = {'op': 'replace', 'set': rng.randrange(3), 'to': rng.randrange(3)}
            elif k < .25:
                o = {'op': 'reload', 'm': rng.randrange(3), 'to': rng.randrange(3)}
            elif k < .29:
                o = {'op': 'eval', 'e': rng.randrange(3), 'set': rng.randrange(3)}
            else:
                o = {'op': rng.choice(KINDS), 'models': some(3), 'sets': some(3), 'metrics': some(3), 'cache': rng.random() < .6, 'seed': rng.randrange(1 << 30)}
                if o['op'] == 'tree':
                    o['step'] = rng.choice([1, 1, 2, 3, 5, 10, 30])
                if o['op'] in ('query', 'relevance'):
                    o['bins'] = rng.choice([None, 1, 2, 5, 9])
                    o['range'] = rng.choice([None, None, [0, 1], [-2, 2], [None, 3], [-4, None]])
                if o['op'] == 'confusion':
                    o['skip'] = rng.random() < .5
            if o['op'] not in ('clear', 'eval', 'replace', 'reload') and rng.random() < .3:
                o['fault'] = inject.draw(rng)
            ops.append(o)
        p['ops'] = ops
        enlarge(rng, p, 3)
        return p

    def execute(self, p, ctx):
        from rankeval.analysis import effectiveness as E
        from rankeval.dataset import Dataset
        if not p['sets'] or not p['models'] or not p['metrics']:
            raise Invalid('empty')
        warnings.simplefilter('ignore')
        omp.start(p['omp'])
        omp.lib().simomp_disable()
        built = [scoring.make_model(m, ctx.scratch, name='model%d' % i) for i, m in enumerate(p['models'])]
        ms = [b[0] for b in built]
        arrays = build_sets(p)
        new = lambda k: Dataset(arrays[k][0].copy(), arrays[k][1].copy(), arrays[k][2].copy())
        sets = [new(k) for k in range(len(arrays))]
        ref = [[scoring.Reference(*b[:2], d, *b[2:]) for b in built] for d in sets]
        nd, nm, ne = len(sets), len(ms), len(p['metrics'])
        dsnaps = [scoring.snap_dataset(d) for d in sets]
        msnaps = [scoring.snap_model(m) for m in ms]
        cuts = []
        for X, y, q in arrays:
            c = [0] + [i for i in range(1, len(q)) if q[i] != q[i - 1]] + [len(q)]
            cuts.append(list(zip(c, c[1:])))
        idx = lambda l, n: list(dict.fromkeys(i % n for i in l))
        # the values of the metrics, by fresh metrics in another process
        steps = sorted({o['step'] for o in p['ops'] if o['op'] == 'tree'})

        def table():
            t = {}
            for d in range(nd):
                for m in range(nm):
                    for e, spec in enumerate(p['metrics']):
                        t[d, m, e] = metrics.norm(make(spec).eval(new(d), ref[d][m].y.astype(F32)))[1:]
                        for s in steps:
                            n = ref[d][m].n
                            t[d, m, e, s] = [metrics.norm(make(spec).eval(new(d), ref[d][m].part[:, :min(n, (i + 1) * s)].sum(axis=1)))[1]
                                             for i in range(-(-n // s))]
            return t
        try:
            values = metrics.isolated(table)
        except EOFError:
            raise Invalid('a metric failed')
        es = [make(s) for s in p['metrics']]
        built = None
        omp.lib().simomp_enable()

        def fail(what, *a):
            raise Violation('value', what + ': ' + ' '.join(str(x) for x in a))

        def ties(d, s):
            return any(len(set(s[a:b].tolist())) < b - a for a, b in cuts[d])

        def bins_ok(what, got, scores, edges):
            """the cumulative histogram, with the values next to an edge on either side of it"""
            s = np.asarray(scores, dtype=np.float64)
            eps = 1e-6 * max(1, np.abs(edges).max())
            n, total = len(edges) - 1, s.size
            if got.shape != (n,):
                fail(what, 'bins', got.shape)
            if not total:
                if not np.isnan(got).all():
                    fail(what, 'expected NaN, got', got)
                return
            for i in range(n):
                hi = edges[i + 1]
                lo_c = ((s >= edges[0] + eps) & (s < hi - eps)).sum() / total
                hi_c = ((s >= edges[0] - eps) & (s <= hi + eps)).sum() / total
                if i == n - 1:
                    # the last bin is closed on the right
                    lo_c = ((s >= edges[0]) & (s <= hi)).sum() / total
                if not (lo_c - 1e-6 <= got[i] <= hi_c + 1e-6):
                    fail(what, 'bin', i, 'holds', got[i], 'expected between', lo_c, 'and', hi_c)

        def same_objects(what, coord, objs):
            v = coord.values
            if len(v) != len(objs) or any(a is not b for a, b in zip(v, objs)):
                fail(what, 'the coordinates are not the given objects')

        def edges_of(o, scores):
            lo = min(float(s.min()) for s in scores)
            hi = max(float(s.max()) for s in scores)
            r = o['range'] or [None, None]
            return (lo if r[0] is None else r[0]), (hi if r[1] is None else r[1])
        kept = []
        # what the slots hold: a dataset or model may take the place (and the memory) of another
        holds, mholds = list(range(nd)), list(range(nm))

        def unchanged():
            if [scoring.snap_model(m) for m in ms] != [msnaps[k] for k in mholds] or [scoring.snap_dataset(d) for d in sets] != [dsnaps[k] for k in holds]:
                raise Violation('modified', 'a model or a dataset was modified')

        def analyse(o, cache):
            """runs the analysis, returns (result, function verifying it) """
            D, M, X = idx(o['sets'], nd), idx(o['models'], nm), idx(o['metrics'], ne)
            ds, mo, me = [sets[d] for d in D], [ms[m] for m in M], [es[e] for e in X]
            D, M = [holds[d] for d in D], [mholds[m] for m in M]
            kind = o['op']
            what = '%s(cache=%s)' % (kind, cache)
            cells = [(i, d, j, m) for i, d in enumerate(D) for j, m in enumerate(M)]
            args = None

            def opt(**kw):
                """the options, or just those other than documented"""
                return {k: v for k, v in kw.items() if v != DEFAULTS[k]} if o['seed'] % 2 else kw
            if kind in ('query', 'class') and any(p['metrics'][e][0] in ('Kendalltau', 'SpearmanRho') for e in X):
                return None
            if kind == 'model':
                fn = lambda: E.model_performance(ds, mo, me, **opt(cache=cache))

                def verify(r):
                    same_objects(what, r.coords['metric'], me)
                    for i, d, j, m in cells:
                        for l, e in enumerate(X):
                            if not near(r.values[i, j, l], values[d, m, e][0]):
                                fail(what, 'dataset', d, 'model', m, p['metrics'][e], r.values[i, j, l], 'instead of', values[d, m, e][0])
                shape = (len(D), len(M), len(X))
            elif kind == 'tree':
                s = o['step']
                fn = lambda: E.tree_wise_performance(ds, mo, me, **opt(step=s, cache=cache))
                top = max(ref[0][m].n for m in M)
                ks = [min(top, (i + 1) * s) for i in range(-(-top // s))]
                shape = (len(D), len(M), len(ks), len(X))

                def verify(r):
                    same_objects(what, r.coords['metric'], me)
                    if r.coords['k'].values.tolist() != ks:
                        fail(what, 'numbers of trees', r.coords['k'].values, 'instead of', ks)
                    for i, d, j, m in cells:
                        for l, e in enumerate(X):
                            v = values[d, m, e, s]
                            for t in range(len(ks)):
                                got = r.values[i, j, t, l]
                                if t >= len(v):
                                    if not np.isnan(got):
                                        fail(what, 'a value beyond the trees of the model', got)
                                    continue
                                if p['metrics'][e][0] in RANKING + ('PrecisionMax',) or p['metrics'][e][1].get('cutoff'):
                                    if ties(d, ref[d][m].part[:, :min(ref[d][m].n, (t + 1) * s)].sum(axis=1)):
                                        continue
                                if not near(got, v[t]):
                                    fail(what, 'dataset', d, 'model', m, p['metrics'][e], 'position', t, got, 'instead of', v[t])
            elif kind == 'contribution':
                fn = lambda: E.tree_wise_average_contribution(ds, mo, **opt(cache=cache))
                top = max(ref[0][m].n for m in M)
                shape = (len(D), len(M), top)

                def verify(r):
                    for i, d, j, m in cells:
                        v = np.abs(ref[d][m].part).mean(axis=0)
                        for t in range(top):
                            if not near(r.values[i, j, t], v[t] if t < len(v) else np.nan, 3e-6):
                                fail(what, 'dataset', d, 'model', m, 'tree', t, r.values[i, j, t], 'instead of', v[t] if t < len(v) else 'NaN')
            elif kind == 'query':
                start, end = o['range'] or [None, None]
                det = lambda d, m, e: np.array(values[d, m, e][1])
                lo, hi = edges_of(o, [det(d, m, e) for d in D for m in M for e in X])
                if not lo <= hi:
                    return None
                bins = o['bins'] or max(len(cuts[d]) for d in D)
                fn = lambda: E.query_wise_performance(ds, mo, me, **opt(bins=o['bins'], start=start, end=end, cache=cache))
                shape = (len(D), len(M), len(X), bins)
                edges = np.linspace(lo, hi, bins + 1)

                def verify(r):
                    same_objects(what, r.coords['metric'], me)
                    for i, d, j, m in cells:
                        for l, e in enumerate(X):
                            bins_ok('%s dataset %d model %d %s' % (what, d, m, p['metrics'][e]), r.values[i, j, l], det(d, m, e), edges)
            elif kind == 'class':
                rng = random.Random(o['seed'])
                names = rng.choice([[0, 1], [3, 1, 2, 7], ['a', 'b', 'nav']])
                classes = [np.array([rng.choice(names) for _ in cuts[d]]) for d in D]
                args = [c.copy() for c in classes]
                fn = lambda: E.query_class_performance(ds, mo, me, classes, **opt(cache=cache))
                every = sorted({c for a in args for c in a.tolist()})
                shape = (len(D), len(M), len(X), len(every))

                def verify(r):
                    same_objects(what, r.coords['metric'], me)
                    if r.coords['classes'].values.tolist() != every:
                        fail(what, 'classes', r.coords['classes'].values, 'instead of', every)
                    for a, b in zip(args, classes):
                        if a.tolist() != b.tolist():
                            raise Violation('modified', 'the query classes were modified')
                    for i, d, j, m in cells:
                        for l, e in enumerate(X):
                            for c, name in enumerate(every):
                                v = [x for x, n in zip(values[d, m, e][1], args[i].tolist()) if n == name]
                                if not near(r.values[i, j, l, c], np.mean(v) if v else np.nan, 3e-6):
                                    fail(what, 'dataset', d, 'model', m, p['metrics'][e], 'class', name, r.values[i, j, l, c], 'instead of the mean of', v)
            elif kind == 'relevance':
                start, end = o['range'] or [None, None]
                lo, hi = edges_of(o, [ref[d][m].y for d in D for m in M])
                if not lo <= hi:
                    return None
                kw = {} if o['bins'] is None else {'bins': o['bins']}
                bins = o['bins'] or 100
                fn = lambda: E.document_graded_relevance(ds, mo, **opt(start=start, end=end, cache=cache), **kw)
                labels = sorted({float(v) for d in D for v in arrays[d][1]})
                shape = (len(D), len(M), len(labels), bins)
                edges = np.linspace(lo, hi, bins + 1)

                def verify(r):
                    if r.coords['label'].values.tolist() != labels:
                        fail(what, 'labels', r.coords['label'].values, 'instead of', labels)
                    for i, d, j, m in cells:
                        for l, g in enumerate(labels):
                            bins_ok('%s dataset %d model %d label %g' % (what, d, m, g), r.values[i, j, l], ref[d][m].y[arrays[d][1] == g], edges)
            else:
                fn = lambda: E.rank_confusion_matrix(ds, mo, **opt(skip_same_label=o['skip'], cache=cache))
                labels = sorted({int(v) for d in D for v in arrays[d][1]})
                shape = (len(D), len(M), len(labels), len(labels))

                def verify(r):
                    if r.coords['label_i'].values.tolist() != labels or r.coords['label_j'].values.tolist() != labels:
                        fail(what, 'labels', r.coords['label_i'].values, 'instead of', labels)
                    for i, d, j, m in cells:
                        c = np.zeros((len(labels),) * 2, dtype=int)
                        y, s = arrays[d][1], ref[d][m].y
                        for a, b in cuts[d]:
                            for u in range(a, b):
                                for v in range(u, b):
                                    if o['skip'] and y[u] == y[v]:
                                        continue
                                    f, g = labels.index(int(y[u])), labels.index(int(y[v]))
                                    if s[u] < s[v]:
                                        c[f, g] += 1
                                    else:
                                        c[g, f] += 1
                        if not np.array_equal(r.values[i, j], c):
                            fail(what, 'dataset', d, 'model', m, r.values[i, j].tolist(), 'instead of', c.tolist())

            def full(r):
                same_objects(what, r.coords['dataset'], ds)
                same_objects(what, r.coords['model'], mo)
                if r.values.shape != shape:
                    fail(what, 'shape', r.values.shape, 'instead of', shape)
                verify(r)
                kept.append((what, r.values, r.values.copy()))
            return fn, full

        def one(i, o, cache):
            ctx.steps += 1
            got = analyse(o, cache)
            if got is None:
                return
            fn, verify = got
            if o.get('fault'):
                r, err, fired = inject.run(o['fault'], fn, ctx)
                if err is not None:
                    ctx.log(i, o['op'], type(err).__name__)
                    return
            else:
                r = fn()
            ctx.log(i, o['op'], [float(x) for x in np.asarray(r.values, dtype=float).ravel()[:50]])
            verify(r)
        for i, o in enumerate(p['ops']):
            if o['op'] == 'clear':
                ms[o['m'] % nm].clear_cache()
            elif o['op'] == 'eval':
                d = o['set'] % nd
                metrics.attempt(lambda: es[o['e'] % ne].eval(sets[d], ref[holds[d]][0].y.astype(F32)))
            elif o['op'] == 'replace':
                unchanged()
                d = o['set'] % nd
                sets[d] = None
                holds[d] = o['to'] % nd
                sets[d] = new(holds[d])
            elif o['op'] == 'reload':
                unchanged()
                m = o['m'] % nm
                ms[m] = None
                mholds[m] = o['to'] % nm
                omp.lib().simomp_disable()
                ms[m] = scoring.make_model(p['models'][mholds[m]], ctx.scratch, name='model%d' % mholds[m])[0]
                omp.lib().simomp_enable()
            elif o['op'] == 'score':
                d, m = o['set'] % nd, o['m'] % nm
                fn = lambda: ms[m].score(sets[d], detailed=o['detailed'], cache=o['cache'])
                if o.get('fault'):
                    r, err, fired = inject.run(o['fault'], fn, ctx)
                else:
                    r, err = fn(), None
                if err is None:
                    rf = ref[holds[d]][mholds[m]]
                    e = rf.detailed(r) if o['detailed'] else rf.basic(r)
                    if e:
                        raise Violation('scores', 'call %d: %s' % (i, e))
                    for a in (r if o['detailed'] else (r,)):
                        kept.append(('score', a, a.copy()))
            else:
                one(i, o, o['cache'])
        # whatever happened, the analyses still give the right values
        o = {k: v for k, v in (p['ops'][-1] if p['ops'] else {}).items() if k != 'fault'}
        if o.get('op') in KINDS:
            for cache in (True, False):
                one('final', o, cache)
        for what, a, b in kept:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation('altered', 'the result of %s changed afterwards' % what)
        unchanged()
        omp.stop(ctx, schedule=False)
        ctx.nontrivial = True
        ctx.state('history', [(o['op'], o.get('cache'), (o.get('fault') or {}).get('kind')) for o in p['ops']])


CHECK = C18()
