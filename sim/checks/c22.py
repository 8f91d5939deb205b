"""C22: the randomization test reports the p-values of its random draws."""
import itertools
import math
import random
import warnings
from fractions import Fraction

import numpy as np

from sim import inject, metrics, omp, rng as R, scoring
from sim.checks.c14 import build_sets, draw_sets, enlarge
from sim.core import Check, Invalid, Violation

STYLES = ('random', 'random', 'random', 'none', 'all', 'alternate', 'single', 'rare', 'observed')
METRICS = [c for c in metrics.CLASSES if c not in ('Kendalltau', 'SpearmanRho')]


class Draws:
    """np.random.choice between two values, chosen by the plan and recorded"""

    def __init__(self, style, seed):
        self.style, self.rng, self.rows, self.other = style, random.Random(seed), [], 0

    def row(self, n):
        s, r = self.style, self.rng
        if s == 'none':
            b = [0] * n
        elif s == 'all':
            b = [1] * n
        elif s == 'alternate':
            b = [(len(self.rows) + i) % 2 for i in range(n)]
        elif s == 'single':
            b = [int(i == len(self.rows) % max(1, n)) for i in range(n)]
        elif s == 'rare':
            b = [int(r.random() < .1) for _ in range(n)]
        elif s == 'observed':
            b = [0] * n if r.random() < .5 else [r.randrange(2) for _ in range(n)]
        else:
            b = [r.randrange(2) for _ in range(n)]
        self.rows.append(b)
        return b

    def __call__(self, a, size=None, replace=True, p=None):
        try:
            two = np.asarray(a) if not isinstance(a, (int, np.integer)) else np.arange(a)
            if len(two) == 2 and bool(two[0]) != bool(two[1]) and replace and p is None and size is not None:
                shape = (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)
                if len(shape) <= 2:
                    k, n = (1, shape[0]) if len(shape) == 1 else shape
                    bits = np.array([self.row(n) for _ in range(k)], dtype=bool).reshape(shape)
                    # a row holds the truth of every selection
                    return two[np.where(bits, int(bool(two[1])), int(bool(two[0])))]
        except (TypeError, ValueError):
            pass
        self.other += 1
        return self.real(a, size, replace, p)

    def __enter__(self):
        self.real = np.random.choice
        np.random.choice = self
        return self

    def __exit__(self, *a):
        np.random.choice = self.real
        return False


def pvalues(a, b, rows):
    """the p-values of the recorded reassignments, exactly"""
    a, b = [Fraction(float(v)) for v in a], [Fraction(float(v)) for v in b]
    scale = max(v.denominator for v in a + b)          # powers of two
    a, b = [int(v * scale) for v in a], [int(v * scale) for v in b]
    if sum(a) < sum(b):
        a, b = b, a
    d = [x - y for x, y in zip(a, b)]
    t = sum(d)
    one = two = 0
    for r in rows:
        # selected queries are swapped
        v = t - 2 * sum(x for x, s in zip(d, r) if s)
        one += v >= t
        two += abs(v) >= abs(t)
    return one / len(rows), two / len(rows)


class C22(Check):
    id = 'C22'
    runs = 3000
    quick_seconds = 150
    lists = ('ops', 'sets', 'metrics')
    ints = {}
    real = ['rankeval.analysis.statistical.statistical_significance', 'rankeval.metrics', 'RTEnsemble.score, Dataset, rankeval.scoring (compiled)', 'xarray']
    stub = ['the selections drawn by np.random.choice', 'user interrupts and lack of memory raised at a chosen instruction of the library',
            'failing allocations of arrays (NumPy constructors)', 'the OpenMP runtime (fibers scheduled by the seed)']
    measure = 'distinct histories (sets, metrics, styles of the draws, faults)'
    level_rule = ('Each seed draws two models, datasets, metrics and up to five tests; with one dataset and metric the drawn selections are replayed '
                  'exactly on the per-query values in rational arithmetic, otherwise the p-values are compared with the exact distribution.')
    assumptions = ['selections drawn otherwise than by np.random.choice are only compared with their distribution, within 6.5 standard deviations',
                   'a metric has a value for every query', 'sums of the values of a metric are exact in double precision']

    def preload(self):
        import rankeval.analysis.statistical  # noqa
        import rankeval.metrics  # noqa
        omp.lib()

    def generate(self, rng, tier):
        n_feat = rng.randrange(1, 6)
        p = {'models': [], 'seed': rng.randrange(1 << 30), 'omp': omp.draw(rng)}
        for _ in range(2):
            m = scoring.draw_model(rng, 'small', ('QuickRank',))
            m.update(n_feat=n_feat, n_trees=rng.choice([1, 2, 4]), keep=None)
            p['models'].append(m)
        p['twin'] = rng.random() < .12
        p.update(draw_sets(rng, 'small', n_feat, 3))
        p['data']['rows'] = min(p['data']['rows'], 30)
        p['metrics'] = [metrics.draw(rng, METRICS) for _ in range(rng.randrange(1, 4))]
        ops = []
        for _ in range(rng.randrange(1, 6)):
            o = {'op': rng.choice(['exact', 'exact', 'exact', 'many', 'consume']), 'swap': rng.random() < .5, 'set': rng.randrange(3), 'e': rng.randrange(3),
                 'n': rng.choice([1, 2, 3, 7, 20, 50, 100]), 'style': rng.choice(STYLES), 'dseed': rng.randrange(1 << 30), 'cache': rng.random() < .5,
                 'sets': rng.sample(range(3), rng.randrange(1, 4)), 'es': rng.sample(range(3), rng.randrange(1, 4))}
            if rng.random() < .25:
                o['fault'] = inject.draw(rng)
            ops.append(o)
        p['ops'] = ops
        if rng.random() < .005:
            # more draws than small integers count
            p['ops'] = [dict(p['ops'][0], op='exact', n=rng.choice([300, 33000, 66000]))]
        else:
            enlarge(rng, p)
        return p

    def execute(self, p, ctx):
        from rankeval.analysis.statistical import statistical_significance
        from rankeval.dataset import Dataset
        if not p['sets'] or not p['metrics']:
            raise Invalid('empty')
        warnings.simplefilter('ignore')
        omp.start(p['omp'])
        omp.lib().simomp_disable()
        built = [scoring.make_model(m, ctx.scratch, name='model%d' % i) for i, m in enumerate(p['models'])]
        if p['twin']:
            built[1] = (built[0][0].copy(),) + built[0][1:]
        ms = [b[0] for b in built]
        arrays = build_sets(p)
        sets = [Dataset(X.copy(), y.copy(), q.copy()) for X, y, q in arrays]
        scores = [[scoring.Reference(*b[:2], d, *b[2:]).y.astype(np.float32) for b in built] for d in sets]
        es = [metrics.make(s) for s in p['metrics']]
        snaps = [scoring.snap_dataset(d) for d in sets] + [scoring.snap_model(m) for m in ms]
        nd, ne = len(sets), len(es)
        values = metrics.isolated(lambda: {(d, m, e): np.array(metrics.make(p['metrics'][e]).eval(
            Dataset(*[a.copy() for a in arrays[d]]), scores[d][m])[1]) for d in range(nd) for m in range(2) for e in range(ne)})
        omp.lib().simomp_enable()
        np.random.seed(p['seed'])

        def shape(r, D, E, what):
            if r.values.shape != (len(D), len(E), 2) or r.coords['p-value'].values.tolist() != ['one-sided', 'two-sided']:
                raise Violation('shape', '%s: %s' % (what, r.values.shape))
            for c, objs in (('dataset', [sets[d] for d in D]), ('metric', [es[e] for e in E])):
                if any(x is not y for x, y in zip(r.coords[c].values, objs)):
                    raise Violation('coordinates', what)

        def general(one, two, a, b, what):
            if not (0 <= one <= two <= 1):
                raise Violation('order', '%s: one-sided %r, two-sided %r' % (what, one, two))
            if np.array_equal(a, b) and (one, two) != (1, 1):
                raise Violation('same', '%s: models with the same scores have %r %r' % (what, one, two))

        def distribution(one, two, a, b, n, what):
            k = len(a)
            if k > 9:
                return
            e1, e2 = pvalues(a, b, list(itertools.product((0, 1), repeat=k)))
            for name, v, e in (('one', one, e1), ('two', two, e2)):
                if abs(v - e) > 6.5 * math.sqrt(e * (1 - e) / n) + 1e-6 + (6 / n if 0 < e < 1 else 0):
                    raise Violation('distribution', '%s: %s-sided %r, expected %r (%d permutations)' % (what, name, v, e, n))

        def exact(o, swap, dr, what):
            d, e = o['set'] % nd, o['e'] % ne
            A, B = (1, 0) if swap else (0, 1)
            with dr:
                r = statistical_significance([sets[d]], ms[A], ms[B], [es[e]], n_perm=o['n'], cache=o['cache'])
            shape(r, [d], [e], what)
            one, two = (float(v) for v in r.values[0, 0])
            a, b = values[d, A, e], values[d, B, e]
            general(one, two, a, b, what)
            if len(dr.rows) == o['n'] and not dr.other and all(len(x) == len(a) for x in dr.rows):
                ok = [pvalues(a, b, dr.rows), pvalues(a, b, [[1 - v for v in x] for x in dr.rows])]
                if not any(abs(one - x) < 1e-6 and abs(two - y) < 1e-6 for x, y in ok):
                    raise Violation('pvalue', '%s: p-values %r %r, the draws give %r' % (what, one, two, ok[0]))
                ctx.probe('replayed_draws', o['n'])
            elif not dr.rows:
                distribution(one, two, a, b, o['n'], what)
            return one, two, (a.astype(np.float64).mean() == b.astype(np.float64).mean())

        for i, o in enumerate(p['ops']):
            ctx.steps += 1
            what = 'call %d (%s, %s)' % (i, o['op'], o['style'])
            if o['op'] == 'consume':
                R.consume('rand', random.Random(o['dseed']))
                continue
            if o.get('fault'):
                d, e = o['set'] % nd, o['e'] % ne
                with Draws('random', o['dseed']):
                    r, err, fired = inject.run(o['fault'], lambda: statistical_significance([sets[d]], ms[0], ms[1], [es[e]], n_perm=3, cache=o['cache']), ctx)
                ctx.log(what, type(err).__name__)
            if o['op'] == 'many':
                D = list(dict.fromkeys(d % nd for d in o['sets']))
                E = list(dict.fromkeys(e % ne for e in o['es']))
                n = 400
                if o['dseed'] % 16 == 0:
                    D, E, n = D[:1], E[:1], 5000
                r = statistical_significance([sets[d] for d in D], ms[0], ms[1], [es[e] for e in E], n_perm=n, cache=o['cache'])
                shape(r, D, E, what)
                for j, d in enumerate(D):
                    for k, e in enumerate(E):
                        one, two = (float(v) for v in r.values[j, k])
                        general(one, two, values[d, 0, e], values[d, 1, e], what)
                        distribution(one, two, values[d, 0, e], values[d, 1, e], n, '%s, dataset %d, %s' % (what, d, p['metrics'][e]))
                ctx.log(what, r.values.tolist())
                continue
            dr = Draws(o['style'], o['dseed'])
            one, two, tie = exact(o, False, dr, what)
            ctx.log(what, one, two)
            if o['style'] != 'random':
                ctx.fault('ADVERSARIAL_DRAW')
            if o['swap']:
                # the same draws, the models exchanged
                d2 = Draws(o['style'], o['dseed'])
                o2, t2, _ = exact(o, True, d2, what + ' swapped')
                if not tie and d2.rows and d2.rows == dr.rows and (one, two) != (o2, t2):
                    raise Violation('swapped', '%s: %r %r, with the models swapped %r %r' % (what, one, two, o2, t2))
        if [scoring.snap_dataset(d) for d in sets] + [scoring.snap_model(m) for m in ms] != snaps:
            raise Violation('modified', 'a dataset or a model was modified')
        omp.stop(ctx, schedule=False)
        ctx.nontrivial = True
        ctx.state([(o['op'], o['style'], o['n'], o['swap'], (o.get('fault') or {}).get('kind')) for o in p['ops']], p['metrics'])


CHECK = C22()
