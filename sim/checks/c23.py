"""C23: the bias/variance analysis never trains on the documents it scores."""
import random
import warnings

import numpy as np

from sim import data, inject, metrics, rng as R, scoring
from sim.core import Check, Invalid, Violation

F32 = np.float32
METRICS = [c for c in metrics.CLASSES if c not in ('Kendalltau', 'SpearmanRho')] + ['MSE'] * 5


class Learner:
    """a learning algorithm: every call is looked at when it happens, and its scores remembered"""
    __name__ = 'learner'

    def __init__(self, kind, seed, tables, fail=None):
        self.kind, self.seed, self.tables, self.fail = kind, seed, tables, fail
        self.rng = random.Random(seed)
        self.calls = []
        self.error = None

    def of(self, X):
        """dataset and rows, told by the first feature"""
        ids = X[:, 0].astype(int)
        return set((ids // 1000).tolist()), (ids % 1000).tolist()

    def check(self, X, y, sizes, T):
        d1, train = self.of(X)
        d2, test = self.of(T)
        if len(d1 | d2) != 1:
            return 'documents of datasets %s' % sorted(d1 | d2)
        d = min(d1 | d2)
        X0, y0, q0 = self.tables[d]
        if not np.array_equal(X, X0[train]) or not np.array_equal(T, X0[test]):
            return 'features that are not those of the dataset'
        if not np.array_equal(y, y0[train]):
            return 'labels that are not those of the training documents'
        if len(set(train)) != len(train) or len(set(test)) != len(test):
            return 'documents given twice'
        both = set(q0[train].tolist()) & set(q0[test].tolist())
        if both:
            return 'query %d both in the training and in the test documents' % min(both)
        sizes = [int(s) for s in sizes]
        if sum(sizes) != len(train) or min(sizes, default=1) < 1:
            return 'query sizes %s for %d training documents' % (sizes, len(train))
        if sizes != [b - a for a, b in R.bounds(q0[train])]:
            return 'query sizes %s, the training documents have %s' % (sizes, [b - a for a, b in R.bounds(q0[train])])
        if len(set(q0.tolist()) - set(q0[train].tolist()) - set(q0[test].tolist())):
            return 'queries neither in the training nor in the test documents'
        if not test:
            return 'no document to score'
        return None

    def __call__(self, X, y, sizes, T):
        if len(self.calls) == self.fail:
            self.calls.append(None)
            raise ArithmeticError('the learner failed')
        e = self.check(X, y, sizes, T)
        if e and self.error is None:
            self.error = 'call %d of the learner: %s' % (len(self.calls), e)
        d, rows = self.of(T)
        if self.kind == 'label':
            s = np.array([float(self.tables[min(d)][1][r]) for r in rows])
        elif self.kind == 'row':
            s = np.array([(r * 37 % 101) / 8 for r in rows])
        elif self.kind == 'mean':
            s = np.full(len(rows), float(np.mean(y)) if len(y) else 0.) + np.array(rows) / 64
        else:
            s = np.array([self.rng.randrange(-40, 41) / 8 + r / 1024 for r in rows])
        s = s.astype(F32)
        self.calls.append((min(d), rows, s.copy()))
        if self.seed % 3 == 0:
            return s.astype(np.float64)
        return s.tolist() if self.seed % 3 == 1 else s


def repetitions(calls, tables):
    """groups the calls in repetitions, or says why it is not possible"""
    out, cur, seen = [], None, set()
    for i, (d, rows, s) in enumerate(calls):
        if cur is None:
            cur, seen = [d, np.zeros(len(tables[d][1]), dtype=F32), 0], set()
        if cur[0] != d:
            return None, 'a repetition mixes datasets'
        if seen & set(rows):
            return None, 'call %d: document %d scored twice in a repetition' % (i, min(seen & set(rows)))
        seen |= set(rows)
        cur[1][rows] = s
        cur[2] += 1
        if len(seen) == len(tables[d][1]):
            out.append(tuple(cur))
            cur = None
    return (None, 'the last repetition did not score every document') if cur is not None else (out, None)


class C23(Check):
    id = 'C23'
    runs = 4000
    quick_seconds = 150
    lists = ('ops', 'sets')
    real = ['rankeval.analysis.statistical.bias_variance', 'rankeval.metrics', 'Dataset', 'NumPy, xarray']
    stub = ['learning algorithms (recording, deterministic or randomized, failing)', 'the global generator of NumPy, in a share of the runs, by one '
            'returning chosen permutations', 'user interrupts raised at a chosen instruction of the library', 'failing allocations of arrays']
    measure = 'distinct histories (folds, repetitions, draws, faults)'
    level_rule = ('Each seed draws up to two datasets, metrics, learners and a history of up to four analyses, some of them disturbed or with a '
                  'failing learner; every call of the learner is checked and the reported values recomputed in double precision.')
    assumptions = ['documents of a query are contiguous', 'a metric has a value for every query', 'the learner does not modify what it is given',
                   'there are at least two queries', 'the error of a metric other than MSE is its squared distance from one']

    def preload(self):
        import rankeval.analysis.statistical  # noqa
        import rankeval.metrics  # noqa

    def generate(self, rng, tier):
        p = {'sets': [], 'seed': rng.randrange(1 << 30), 'ops': []}
        for _ in range(rng.choice([1, 1, 2])):
            nq = rng.choice([2, 3, 4, 5, 7, 10, 13])
            p['sets'].append({'dseed': rng.randrange(1 << 30), 'nq': nq, 'rows': nq + rng.choice([0, 1, 3, 10, 20]), 'cols': rng.randrange(2, 4)})
        p['metrics'] = [metrics.draw(rng, METRICS) for _ in range(rng.choice([1, 1, 2, 3]))]
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < .15:
                p['ops'].append({'op': 'consume', 'how': rng.choice(['rand', 'seed', 'shuffle', 'normal', 'python']), 's': rng.randrange(1 << 30)})
                continue
            o = {'op': 'run', 'L': rng.choice([2, 2, 3, 5]), 'k': rng.choice([2, 2, 3, 4, 5, 10]), 'style': rng.choice(R.STYLES), 's': rng.randrange(1 << 30),
                 'learner': rng.choice(['random', 'random', 'row', 'label', 'mean']), 'many': rng.random() < .35, 'set': rng.randrange(2), 'e': rng.randrange(3)}
            if rng.random() < .15:
                o['fail'] = rng.randrange(12)
            elif rng.random() < .2:
                o['fault'] = inject.draw(rng)
            p['ops'].append(o)
        return p

    def execute(self, p, ctx):
        from rankeval.analysis.statistical import bias_variance
        from rankeval.dataset import Dataset
        if not p['sets'] or not p['metrics']:
            raise Invalid('empty')
        warnings.simplefilter('ignore')
        tables = []
        for i, s in enumerate(p['sets']):
            X, y, q = data.table(s['dseed'], s['rows'], s['cols'], s['nq'], kind='dyadic')
            X[:, 0] = i * 1000 + np.arange(len(X))
            tables.append((X, y, q))
        sets = [Dataset(X.copy(), y.copy(), q.copy()) for X, y, q in tables]
        snaps = [scoring.snap_dataset(d) for d in sets]
        es = [metrics.make(s) for s in p['metrics']]
        np.random.seed(p['seed'])

        def expected(spec, d, reps):
            """error, bias and variance of the scores of the repetitions"""
            S = np.stack([r[1] for r in reps], axis=1)
            if spec[0] == 'MSE':
                v, target = S.astype(np.float64), tables[d][1].astype(np.float64)[:, None]
            else:
                new = lambda: Dataset(*[a.copy() for a in tables[d]])
                v = np.stack([np.array(metrics.make(spec).eval(new(), S[:, i].copy())[1], dtype=np.float64) for i in range(S.shape[1])], axis=1)
                target = 1.
            m = v.mean(axis=1, keepdims=True)
            return ((v - target) ** 2).mean(), ((m - target) ** 2).mean(), ((v - m) ** 2).mean()

        for i, o in enumerate(p['ops']):
            ctx.steps += 1
            if o['op'] == 'consume':
                R.consume(o['how'], random.Random(o['s']))
                continue
            many = o['many']
            D = list(range(len(sets))) if many else [o['set'] % len(sets)]
            E = list(range(len(es))) if many else [o['e'] % len(es)]
            kind = o['learner'] if not many or o['learner'] in ('row', 'label') else 'row'
            what = 'call %d (L=%d, k=%d, %s, %s)' % (i, o['L'], o['k'], o['style'], kind)
            algos = [Learner(kind, o['s'], tables, o.get('fail'))]
            if many and o['s'] % 2:
                algos.append(Learner('label' if kind == 'row' else 'row', o['s'] + 1, tables))

            def run():
                return bias_variance(datasets=[sets[d] for d in D], algos=algos, metrics=[es[e] for e in E], L=o['L'], k=o['k'])
            failed = None
            with R.Global(o['s'], o['style']):
                if o.get('fault'):
                    r, err, fired = inject.run(o['fault'], run, ctx)
                    if err is not None:
                        failed = err
                else:
                    try:
                        r = run()
                    except ArithmeticError as e:
                        if o.get('fail') is None:
                            raise
                        failed = e
                        ctx.fault('LEARNER_FAILED')
            ctx.log(what, type(failed).__name__, [len(a.calls) for a in algos])
            for a in algos:
                if a.error:
                    raise Violation('folds', '%s, %s' % (what, a.error))
            if failed is not None:
                continue
            if any(c is None for a in algos for c in a.calls):
                raise Violation('failure', '%s: the failure of the learner was hidden' % what)
            if r.values.shape != (len(D), len(E), len(algos), 3) or r.coords['error'].values.tolist() != ['Error', 'Bias', 'Variance']:
                raise Violation('shape', '%s: %s' % (what, r.values.shape))
            for c, objs in (('dataset', [sets[d] for d in D]), ('metric', [es[e] for e in E])):
                if any(x is not y for x, y in zip(r.coords[c].values, objs)):
                    raise Violation('coordinates', what)
            for ai, a in enumerate(algos):
                reps, e = repetitions(a.calls, tables)
                if e:
                    raise Violation('repetition', '%s, %s' % (what, e))
                for d, s, n in reps:
                    nq = len(set(tables[d][2].tolist()))
                    if n > o['k'] or n < min(2, nq):
                        raise Violation('folds', '%s: %d folds of %d queries' % (what, n, nq))
                for di, d in enumerate(D):
                    mine = [t for t in reps if t[0] == d]
                    if len(mine) < o['L']:
                        raise Violation('repetition', '%s: %d repetitions instead of %d' % (what, len(mine), o['L']))
                    if len(mine) != o['L'] and not many:
                        raise Violation('repetition', '%s: %d repetitions instead of %d' % (what, len(mine), o['L']))
                    for ei, e in enumerate(E):
                        # with several metrics the scores of the learner are always the same
                        v = [float(x) for x in r.values[di, ei, ai]]
                        exp = expected(p['metrics'][e], d, mine[:o['L']])
                        tol = 1e-4 * max(1, exp[0])
                        if not abs(v[0] - v[1] - v[2]) <= tol:
                            raise Violation('sum', '%s, %s: error %r, bias %r, variance %r' % (what, p['metrics'][e], *v))
                        if any(not abs(x - y) <= tol for x, y in zip(v, exp)):
                            raise Violation('values', '%s, %s: %r instead of %r' % (what, p['metrics'][e], v, exp))
            ctx.log(r.values.tolist())
            if o['style'] != 'real':
                ctx.fault('ADVERSARIAL_DRAW')
        if [scoring.snap_dataset(d) for d in sets] != snaps:
            raise Violation('modified', 'a dataset was modified')
        ctx.nontrivial = True
        ctx.state([(o['op'], o.get('L'), o.get('k'), o.get('style'), o.get('learner'), o.get('fail'), (o.get('fault') or {}).get('kind')) for o in p['ops']],
                  [s['nq'] for s in p['sets']])


CHECK = C23()
